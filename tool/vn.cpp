#include "vn.h"
#include "ai.h"
#include "poly.h"
#include <algorithm>

bool vnMode = false;
unsigned vnUnit = 8; // granularity of bitwise operations
unsigned vnXorCap = 12; // longest xor set that is flattened further

namespace {
enum Kind : uint8_t { K_CONST, K_VAR, K_EXT, K_CAT, K_XOR, K_LIN, K_OP, K_LOAD, K_UF, K_TUPLE };
struct Term {
  Kind k;
  uint16_t w;
  uint32_t pos, len; // slice of pool
  u128 c, c2;
};
std::vector<Term> terms(1);
std::vector<uint64_t> pool;
std::vector<uint32_t> table(1 << 16, 0);
std::map<std::string, uint32_t> names;

uint64_t hashOf(Kind k, unsigned w, u128 c, const uint64_t *v, size_t n) {
  uint64_t h = 0x9e3779b97f4a7c15ull * (k + 1) + w;
  auto mix = [&](uint64_t x) { h ^= x; h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
  mix((uint64_t)c);
  mix((uint64_t)(c >> 64));
  for (size_t i = 0; i < n; i++) mix(v[i]);
  return h;
}

uint32_t intern(Kind k, unsigned w, u128 c, const uint64_t *v, size_t n, u128 c2 = 0) {
  uint64_t h = hashOf(k, w, c, v, n);
  size_t m = table.size() - 1;
  for (size_t i = h & m;; i = (i + 1) & m) {
    uint32_t id = table[i];
    if (!id) {
      Term t{k, (uint16_t)w, (uint32_t)pool.size(), (uint32_t)n, c, c2};
      pool.insert(pool.end(), v, v + n);
      terms.push_back(t);
      id = (uint32_t)terms.size() - 1;
      table[i] = id;
      if (terms.size() * 2 > table.size()) {
        std::vector<uint32_t> nt(table.size() * 2, 0);
        size_t nm = nt.size() - 1;
        for (uint32_t x = 1; x < terms.size(); x++) {
          const Term &q = terms[x];
          size_t j = hashOf(q.k, q.w, q.c, &pool[q.pos], q.len) & nm;
          while (nt[j]) j = (j + 1) & nm;
          nt[j] = x;
        }
        table.swap(nt);
      }
      return id;
    }
    const Term &t = terms[id];
    if (t.k == k && t.w == w && t.c == c && t.len == n && std::equal(v, v + n, pool.begin() + t.pos)) return id;
  }
}

bool isC(uint32_t id) { return terms[id].k == K_CONST; }

uint32_t unitOf(uint32_t id, unsigned i) {
  const Term &t = terms[id];
  if (t.k == K_CONST) return vnConst(t.c >> (vnUnit * i), vnUnit);
  if (t.w == vnUnit) return id;
  if (t.k == K_CAT) return (uint32_t)pool[t.pos + i];
  uint64_t v[2] = {id, i};
  return intern(K_EXT, vnUnit, 0, v, 2);
}

// xor of terms of one width, as a sorted set plus a constant; long sets are
// kept as atoms so that linear layers do not blow up
uint32_t xorTerms(uint32_t a, uint32_t b, unsigned w) {
  std::vector<uint64_t> s;
  u128 c = 0;
  auto add = [&](uint32_t id) {
    const Term &t = terms[id];
    if (t.k == K_CONST) c ^= t.c;
    else if (t.k == K_XOR && t.len <= vnXorCap) { c ^= t.c; s.insert(s.end(), pool.begin() + t.pos, pool.begin() + t.pos + t.len); }
    else s.push_back(id);
  };
  add(a);
  add(b);
  std::sort(s.begin(), s.end());
  std::vector<uint64_t> r;
  for (size_t i = 0; i < s.size();) {
    if (i + 1 < s.size() && s[i] == s[i + 1]) { i += 2; continue; }
    r.push_back(s[i++]);
  }
  if (r.empty()) return vnConst(c, w);
  if (r.size() == 1 && c == 0) return (uint32_t)r[0];
  return intern(K_XOR, w, c, r.data(), r.size());
}

uint32_t bitByte(int op, uint32_t a, uint32_t b, unsigned w) {
  if (op == OP_XOR) return xorTerms(a, b, w);
  u128 m = maskOf(w);
  if (isC(b)) std::swap(a, b);
  if (isC(a)) {
    u128 c = terms[a].c;
    if (isC(b)) return vnConst(op == OP_AND ? c & terms[b].c : c | terms[b].c, w);
    if (op == OP_AND) { if (c == 0) return a; if (c == m) return b; }
    else { if (c == 0) return b; if (c == m) return a; }
    // constant masks in a row: d | (k & y) with d and k disjoint
    const Term &t = terms[b];
    if (t.k == K_OP && (pool[t.pos] == OP_AND || pool[t.pos] == OP_OR)) {
      uint32_t x = (uint32_t)pool[t.pos + 1], y = (uint32_t)pool[t.pos + 2];
      bool inAnd = pool[t.pos] == OP_AND;
      if (isC(y)) std::swap(x, y);
      if (isC(x)) {
        u128 d = terms[x].c;
        if (op == OP_AND && inAnd) return bitByte(OP_AND, vnConst(c & d, w), y, w);
        if (op == OP_OR && !inAnd) return bitByte(OP_OR, vnConst(c | d, w), y, w);
        if (op == OP_AND) return bitByte(OP_OR, vnConst(c & d, w), bitByte(OP_AND, vnConst(c & ~d, w), y, w), w);
        if (d & c) return bitByte(OP_OR, a, bitByte(OP_AND, vnConst(d & ~c, w), y, w), w);
      }
    }
  }
  if (a == b) return a;
  if (a > b) std::swap(a, b);
  return vnOp(op, w, a, b, 0);
}

struct Lin { std::vector<std::pair<uint32_t, u128>> t; u128 c = 0; };
void linAdd(Lin &l, uint32_t id, u128 k, unsigned w) {
  const Term &t = terms[id];
  u128 m = maskOf(w);
  if (t.k == K_CONST) { l.c = (l.c + k * t.c) & m; return; }
  if (t.k == K_LIN && t.w == w && t.len <= 36) {
    l.c = (l.c + k * t.c) & m;
    for (uint32_t i = 0; i < t.len; i += 3) {
      u128 q = (u128)pool[t.pos + i + 1] | (u128)pool[t.pos + i + 2] << 64;
      l.t.push_back({(uint32_t)pool[t.pos + i], (q * k) & m});
    }
    return;
  }
  l.t.push_back({id, k & m});
}
uint32_t linTerm(Lin &l, unsigned w) {
  u128 m = maskOf(w);
  std::sort(l.t.begin(), l.t.end());
  std::vector<uint64_t> v;
  for (size_t i = 0; i < l.t.size();) {
    u128 k = 0;
    size_t j = i;
    for (; j < l.t.size() && l.t[j].first == l.t[i].first; j++) k = (k + l.t[j].second) & m;
    if (k) { v.push_back(l.t[i].first); v.push_back((uint64_t)k); v.push_back((uint64_t)(k >> 64)); }
    i = j;
  }
  if (v.empty()) return vnConst(l.c, w);
  if (v.size() == 3 && v[1] == 1 && v[2] == 0 && l.c == 0) return (uint32_t)v[0];
  if (vnUnit == 1 && v.size() == 3 && l.c == 0 && w <= 128) {
    u128 k = (u128)v[1] | (u128)v[2] << 64;
    uint32_t r[128], z = vnConst(0, 1);
    if ((k & (k - 1)) == 0) { // a shift
      unsigned j = 0;
      while (!(k >> j & 1)) j++;
      for (unsigned i = 0; i < w; i++) r[i] = i >= j ? unitOf((uint32_t)v[0], i - j) : z;
      return vnCat(r, w);
    }
    bool one = true; // a multiple of a single bit
    for (unsigned i = 1; i < w && one; i++) one = unitOf((uint32_t)v[0], i) == z;
    if (one) {
      uint32_t b = unitOf((uint32_t)v[0], 0);
      for (unsigned i = 0; i < w; i++) r[i] = k >> i & 1 ? b : z;
      return vnCat(r, w);
    }
  }
  return intern(K_LIN, w, l.c, v.data(), v.size());
}
} // namespace

size_t vnCount() { return terms.size(); }

uint32_t vnConst(u128 v, unsigned w) { if (polyMode) return pvConst(v & maskOf(w)); return intern(K_CONST, w, v & maskOf(w), nullptr, 0); }
uint32_t vnVar(u128 lo, u128 hi, unsigned w) {
  if (polyMode) return pvVar(lo, hi);
  static uint64_t next = 0;
  uint64_t v[1] = {++next};
  return intern(K_VAR, w, lo, v, 1, hi);
}
uint32_t vnOf(const AV &a, unsigned w) {
  if (polyMode) return pvOf(a, w);
  if (a.obj != O_NONE || (a.lab & L_UNINIT)) return 0;
  if (a.lo == a.hi) return vnConst(a.lo, w);
  return a.sym;
}
uint32_t vnOp(int op, unsigned w, uint32_t a, uint32_t b, uint32_t c) {
  if (polyMode) return op == OP_SELECT ? pvSelect(a, b, c, w) : 0;
  uint64_t v[4] = {(uint64_t)op, a, b, c};
  return intern(K_OP, w, 0, v, 4);
}
uint32_t vnCat(const uint32_t *b, unsigned n) {
  for (unsigned i = 0; i < n; i++) if (!b[i]) return 0;
  if (n == 1) return b[0];
  bool cst = true, ext = true;
  for (unsigned i = 0; i < n; i++) {
    const Term &t = terms[b[i]];
    if (t.k != K_CONST) cst = false;
    if (t.k != K_EXT || pool[t.pos + 1] != i || pool[t.pos] != pool[terms[b[0]].pos]) ext = false;
  }
  if (cst) {
    u128 v = 0;
    for (unsigned i = 0; i < n; i++) v |= terms[b[i]].c << (vnUnit * i);
    return vnConst(v, n * vnUnit);
  }
  if (ext) {
    uint32_t w = (uint32_t)pool[terms[b[0]].pos];
    if (terms[w].w == n * vnUnit) return w;
  }
  std::vector<uint64_t> v(b, b + n);
  return intern(K_CAT, n * vnUnit, 0, v.data(), n);
}
uint32_t vnCatBytes(const uint32_t *ids, unsigned n) {
  if (polyMode) return pvCat(ids, n);
  if (vnUnit == 8) return vnCat(ids, n);
  uint32_t b[128];
  for (unsigned i = 0; i < n; i++) {
    if (!ids[i]) return 0;
    for (unsigned k = 0; k < 8; k++) b[8 * i + k] = unitOf(ids[i], k);
  }
  return vnCat(b, n * 8);
}
uint32_t vnSlice(uint32_t id, unsigned pos, unsigned n) {
  if (polyMode) return pvSlice(id, pos, n);
  if (!id) return 0;
  const unsigned w = terms[id].w;
  if (w % 8 || (pos + n) * 8 > w) return 0;
  if (pos == 0 && n * 8 == w) return id;
  uint32_t b[128];
  if (n > 16) return 0;
  unsigned q = 8 / vnUnit;
  for (unsigned i = 0; i < n * q; i++) b[i] = unitOf(id, pos * q + i);
  return vnCat(b, n * q);
}
uint32_t vnAdd(uint32_t a, uint32_t b, unsigned w) {
  if (polyMode) return pvArith(OP_ADD, a, b);
  if (!a || !b) return 0;
  Lin l;
  linAdd(l, a, 1, w);
  linAdd(l, b, 1, w);
  return linTerm(l, w);
}
uint32_t vnScale(uint32_t a, uint64_t k, unsigned w) {
  if (polyMode) return a ? pvArith(OP_MUL, a, pvConst(k)) : 0;
  if (!a) return 0;
  Lin l;
  linAdd(l, a, (u128)(i128)(int64_t)k, w);
  return linTerm(l, w);
}
uint32_t vnBin(int op, const AV &A, const AV &B, unsigned w) {
  if (polyMode) return pvBin(op, pvOf(A, w), pvOf(B, w), w);
  uint32_t a = vnOf(A, w), b = vnOf(B, w);
  if (op == OP_AND || op == OP_MUL) { // absorbing zero
    if ((a && isC(a) && terms[a].c == 0) || (b && isC(b) && terms[b].c == 0)) return vnConst(0, w);
  }
  if (!a || !b) return 0;
  switch (op) {
  case OP_AND: case OP_OR: case OP_XOR: {
    if (w % vnUnit || w > 128) return bitByte(op, a, b, w);
    uint32_t r[128];
    for (unsigned i = 0; i < w / vnUnit; i++) r[i] = bitByte(op, unitOf(a, i), unitOf(b, i), vnUnit);
    return vnCat(r, w / vnUnit);
  }
  case OP_ADD: return vnAdd(a, b, w);
  case OP_SUB: {
    Lin l;
    linAdd(l, a, 1, w);
    linAdd(l, b, maskOf(w), w);
    return linTerm(l, w);
  }
  case OP_MUL: {
    if (isC(a)) std::swap(a, b);
    if (isC(b)) { Lin l; linAdd(l, a, terms[b].c, w); return linTerm(l, w); }
    if (a > b) std::swap(a, b);
    return vnOp(op, w, a, b, 0);
  }
  case OP_SHL: case OP_LSHR:
    if (isC(b) && w % vnUnit == 0 && w <= 128 && terms[b].c % vnUnit == 0) {
      if (terms[b].c >= w) return vnConst(0, w);
      unsigned k = (unsigned)terms[b].c / vnUnit, n = w / vnUnit;
      uint32_t r[128], z = vnConst(0, vnUnit);
      for (unsigned i = 0; i < n; i++)
        r[i] = op == OP_SHL ? (i >= k ? unitOf(a, i - k) : z) : (i + k < n ? unitOf(a, i + k) : z);
      return vnCat(r, n);
    }
    return vnOp(op, w, a, b, 0);
  case OP_ASHR:
    if (vnUnit == 1 && isC(b) && w <= 128 && terms[b].c < w) {
      unsigned k = (unsigned)terms[b].c;
      uint32_t r[128];
      for (unsigned i = 0; i < w; i++) r[i] = unitOf(a, i + k < w ? i + k : w - 1);
      return vnCat(r, w);
    }
  }
  return vnOp(op, w, a, b, 0);
}
uint32_t vnZext(const AV &A, unsigned from, unsigned to) {
  if (polyMode) return pvZext(pvOf(A, from), from);
  uint32_t a = vnOf(A, from);
  if (!a) return 0;
  if (isC(a)) return vnConst(terms[a].c, to);
  if (to % vnUnit || to > 128) return vnOp(OP_ZEXT, to, a, 0, 0);
  uint32_t r[128];
  unsigned n = 0;
  if (from % vnUnit == 0) for (; n < from / vnUnit; n++) r[n] = unitOf(a, n);
  else if (from < vnUnit) r[n++] = vnOp(OP_ZEXT, vnUnit, a, 0, 0);
  else return vnOp(OP_ZEXT, to, a, 0, 0);
  for (; n < to / vnUnit; n++) r[n] = vnConst(0, vnUnit);
  return vnCat(r, to / vnUnit);
}
uint32_t vnSext(const AV &A, unsigned from, unsigned to) {
  if (polyMode) return pvSext(pvOf(A, from), from);
  uint32_t a = vnOf(A, from);
  if (!a) return 0;
  if (A.hi < ((u128)1 << (from - 1)) && A.lo <= A.hi) return vnZext(A, from, to);
  if (vnUnit == 1 && to <= 128) {
    uint32_t r[128];
    for (unsigned i = 0; i < to; i++) r[i] = unitOf(a, i < from ? i : from - 1);
    return vnCat(r, to);
  }
  return vnOp(OP_SEXT, to, a, 0, 0);
}
uint32_t vnTrunc(const AV &A, unsigned from, unsigned to) {
  if (polyMode) return pvOf(A, from);
  uint32_t a = vnOf(A, from);
  if (!a) return 0;
  if (isC(a)) return vnConst(terms[a].c, to);
  if (from % 8 == 0 && to % 8 == 0) return vnSlice(a, 0, to / 8);
  if (vnUnit == 1) {
    uint32_t r[128];
    for (unsigned i = 0; i < to; i++) r[i] = unitOf(a, i);
    return vnCat(r, to);
  }
  return vnOp(OP_TRUNC, to, a, 0, 0);
}
uint32_t vnBswap(const AV &A, unsigned w) {
  uint32_t a = vnOf(A, w), r[16];
  if (!a) return 0;
  for (unsigned i = 0; i < w / 8; i++) r[i] = vnSlice(a, w / 8 - 1 - i, 1);
  return vnCatBytes(r, w / 8);
}
static uint32_t affineLoad(uint32_t tab, uint32_t rel, unsigned n) {
  if (n > 16) return 0;
  std::vector<unsigned> pos;
  std::vector<uint32_t> idx;
  u128 base = 0;
  for (unsigned i = 0; i < 64; i++) {
    uint32_t b = unitOf(rel, i);
    if (isC(b)) { base |= terms[b].c << i; continue; }
    pos.push_back(i);
    idx.push_back(b);
  }
  unsigned m = (unsigned)pos.size();
  if (m == 0 || m > 8) return 0;
  std::vector<std::pair<uint32_t, unsigned>> bytes; // term, byte within it
  const Term t = terms[tab];
  for (uint32_t i = 0; i < t.len; i++) {
    uint64_t e = pool[t.pos + i];
    for (unsigned k = 0; k < (e >> 32); k++) bytes.push_back({(uint32_t)e, k});
  }
  std::vector<std::vector<uint32_t>> T((size_t)1 << m);
  for (size_t x = 0; x < T.size(); x++) {
    size_t off = (size_t)base;
    for (unsigned i = 0; i < m; i++) if (x >> i & 1) off += (size_t)1 << pos[i];
    if (off + n > bytes.size()) return 0;
    for (unsigned k = 0; k < n * 8; k++) T[x].push_back(unitOf(bytes[off + k / 8].first, bytes[off + k / 8].second * 8 + k % 8));
    if (x & (x - 1)) {
      unsigned i = 0;
      while (!(x >> i & 1)) i++;
      for (unsigned k = 0; k < n * 8; k++)
        if (T[x][k] != xorTerms(T[x & (x - 1)][k], xorTerms(T[(size_t)1 << i][k], T[0][k], 1), 1)) return 0;
    }
  }
  uint32_t r[128];
  for (unsigned k = 0; k < n * 8; k++) {
    r[k] = T[0][k];
    for (unsigned i = 0; i < m; i++)
      r[k] = xorTerms(r[k], bitByte(OP_AND, idx[i], xorTerms(T[(size_t)1 << i][k], T[0][k], 1), 1), 1);
  }
  return vnCat(r, n * 8);
}
uint32_t vnLoad(const Obj *o, int64_t lo, int64_t hi, uint32_t off, unsigned n) {
  if (polyMode) return 0;
  if (!off || o->summ || o->weak) return 0;
  static std::map<std::pair<const Obj *, std::pair<int64_t, int64_t>>, uint32_t> cache;
  bool cst = o->info && o->info->isConstant;
  uint32_t tab = 0;
  auto key = std::make_pair(o, std::make_pair(lo, hi + n));
  if (cst) { auto it = cache.find(key); if (it != cache.end()) tab = it->second; }
  if (!tab) {
    std::vector<uint64_t> v;
    for (int64_t p = lo; p < hi + (int64_t)n;) {
      const Page *pg = o->pages[p / PG];
      int po = p % PG;
      const Cell *c = nullptr;
      for (auto &x : pg->cells) if (x.off <= po && po < x.off + x.len) { c = &x; break; }
      uint32_t id = vnOf(c->v, c->es * 8);
      if (!id || (c->len != c->es && !isConst(c->v))) return 0;
      int64_t end = std::min<int64_t>(p + c->off + c->len - po, hi + n);
      if ((po - c->off) % c->es == 0 && (end - p) % c->es == 0)
        for (int64_t q = p; q < end; q += c->es) v.push_back((uint64_t)c->es << 32 | id);
      else
        for (int64_t q = p; q < end; q++) v.push_back((uint64_t)1 << 32 | vnSlice(id, (po - c->off + (q - p)) % c->es, 1));
      p = end;
    }
    tab = intern(K_TUPLE, 0, 0, v.data(), v.size());
    if (cst) cache[key] = tab;
  }
  uint32_t rel = vnAdd(off, vnConst((u128)(i128)-lo, 64), 64);
  if (vnUnit == 1) // a lookup that is affine in the index bits
    if (uint32_t r = affineLoad(tab, rel, n)) return r;
  uint64_t v[3] = {tab, rel, n};
  return intern(K_LOAD, n * 8, 0, v, 3);
}
void vnUF(const std::string &name, const std::vector<uint32_t> &in, unsigned n, std::vector<uint32_t> &out) {
  out.clear();
  auto nameId = [](const std::string &s) { auto &x = names[s]; if (!x) x = (uint32_t)names.size(); return x; };
  // an inverse pair is written f / f~
  std::string inv = !name.empty() && name.back() == '~' ? name.substr(0, name.size() - 1) : name + "~";
  // Tuples are keyed by the name and the arguments; the first argument bytes
  // up to the data block (the last n bytes) are the key.
  if (in.size() >= n && n) {
    const Term &f = terms[in[in.size() - n]];
    if (f.k == K_UF) {
      uint32_t tup = (uint32_t)pool[f.pos];
      const Term t = terms[tup];
      bool ok = t.c == nameId(inv) && t.len == in.size();
      for (unsigned i = 0; i < n && ok; i++) {
        const Term &g = terms[in[in.size() - n + i]];
        ok = g.k == K_UF && pool[g.pos] == tup && pool[g.pos + 1] == i;
      }
      for (size_t i = 0; i + n < in.size() && ok; i++) ok = pool[t.pos + i] == in[i];
      if (ok) {
        for (unsigned i = 0; i < n; i++) out.push_back((uint32_t)pool[t.pos + in.size() - n + i]);
        return;
      }
    }
  }
  for (auto x : in) if (!x) { out.assign(n, 0); return; }
  std::vector<uint64_t> v(in.begin(), in.end());
  uint32_t tup = intern(K_TUPLE, 0, nameId(name), v.data(), v.size());
  for (unsigned i = 0; i < n; i++) {
    uint64_t u[2] = {tup, i};
    out.push_back(intern(K_UF, 8, 0, u, 2));
  }
}
// Bounds that follow from the shape of a term alone.
static std::pair<u128, u128> rangeOf(uint32_t id, int depth = 0) {
  const Term t = terms[id];
  u128 m = maskOf(t.w);
  if (t.k == K_CONST) return {t.c, t.c};
  if (t.k == K_VAR) return {t.c, t.c2};
  if (depth > 6) return {0, m};
  if (t.k == K_CAT) {
    u128 lo = 0, hi = 0;
    for (unsigned i = 0; i < t.len; i++) {
      auto r = rangeOf((uint32_t)pool[t.pos + i], depth + 1);
      lo |= r.first << (vnUnit * i);
      hi |= r.second << (vnUnit * i);
    }
    return {lo, hi};
  }
  if (t.k == K_OP && pool[t.pos] == OP_OR) {
    auto x = rangeOf((uint32_t)pool[t.pos + 1], depth + 1), y = rangeOf((uint32_t)pool[t.pos + 2], depth + 1);
    return {std::max(x.first, y.first), m};
  }
  return {0, m};
}
bool vnDiffer(uint32_t a, uint32_t b, unsigned w) {
  if (polyMode) return false;
  if (w % 8 || w > 128) return false;
  for (unsigned i = 0; i < w / vnUnit; i++) {
    uint32_t x = unitOf(a, i), y = unitOf(b, i);
    if (rangeOf(xorTerms(x, y, vnUnit)).first > 0) return true;
  }
  return false;
}
void vnRefine(AV &r, unsigned w) {
  if (!r.sym || r.obj != O_NONE || r.lo == r.hi) return;
  if (polyMode) {
    u128 lo, hi;
    if (!pvBounds(r.sym, w, lo, hi)) return;
    if (r.lo > r.hi) { r.lo = lo; r.hi = hi; r.stride = 1; }
    else { if (lo > r.lo) r.lo = lo, r.stride = 1; if (hi < r.hi) r.hi = hi, r.stride = 1; }
    if (r.lo == r.hi) r.stride = 0;
    return;
  }
  const Term &t = terms[r.sym];
  if (t.k == K_CONST) { r.lo = r.hi = t.c; r.stride = 0; return; }
  if (t.w == w && r.lo <= r.hi && (t.k == K_VAR || t.k == K_CAT || t.k == K_OP)) {
    auto q = rangeOf(r.sym);
    bool ch = false;
    if (q.first > r.lo && q.first <= r.hi) r.lo = q.first, ch = true;
    if (q.second < r.hi && q.second >= r.lo) r.hi = q.second, ch = true;
    if (r.lo == r.hi) r.stride = 0;
    else if (ch) r.stride = 1;
  }
}
void vnReach(uint32_t root, std::set<uint32_t> &seen) {
  std::vector<uint32_t> todo{root};
  while (!todo.empty()) {
    uint32_t id = todo.back();
    todo.pop_back();
    if (!id || !seen.insert(id).second) continue;
    const Term &t = terms[id];
    auto sub = [&](size_t i) { todo.push_back((uint32_t)pool[t.pos + i]); };
    switch (t.k) {
    case K_EXT: case K_UF: sub(0); break;
    case K_CAT: case K_XOR: case K_TUPLE: for (uint32_t i = 0; i < t.len; i++) sub(i); break;
    case K_LIN: for (uint32_t i = 0; i < t.len; i += 3) sub(i); break;
    case K_OP: for (int i = 1; i < 4; i++) sub(i); break;
    case K_LOAD: sub(1); break;
    default: break;
    }
  }
}
bool vnIsConst(uint32_t id) { return id && isC(id); }
std::string vnShow(uint32_t id, int d) {
  if (!id) return "?";
  if (polyMode) return pvShow(id);
  const Term &t = terms[id];
  if (t.k == K_CONST) return u128s(t.c);
  if (t.k == K_VAR) return "v" + std::to_string(pool[t.pos]);
  if (d == 0) return "#" + std::to_string(id);
  static const char *nm[] = {"", "", "ext", "cat", "xor", "lin", "op", "load", "uf", "tuple"};
  std::string s = std::string(nm[t.k]) + "(";
  auto sub = [&](size_t i) { s += " " + vnShow((uint32_t)pool[t.pos + i], d - 1); };
  switch (t.k) {
  case K_EXT: sub(0); s += "." + std::to_string(pool[t.pos + 1]); break;
  case K_CAT: case K_XOR: for (uint32_t i = 0; i < t.len && i < 8; i++) sub(i); if (t.k == K_XOR && t.c) s += " ^" + u128s(t.c); break;
  case K_LIN: for (uint32_t i = 0; i < t.len && i < 18; i += 3) { sub(i); if (pool[t.pos + i + 1] != 1) s += "*" + std::to_string((int64_t)pool[t.pos + i + 1]); } if (t.c) s += " +" + u128s(t.c); break;
  case K_OP: s += std::to_string(pool[t.pos]); for (int i = 1; i < 4; i++) if (pool[t.pos + i]) sub(i); break;
  case K_LOAD: s += "tab" + std::to_string(pool[t.pos]); sub(1); break;
  case K_UF: sub(0); s += "." + std::to_string(pool[t.pos + 1]); break;
  case K_TUPLE: s += "n" + std::to_string((unsigned)t.c) + " len" + std::to_string(t.len); for (uint32_t i = 0; i < t.len && i < 4; i++) s += " #" + std::to_string((uint32_t)pool[t.pos + i]); break;
  default: break;
  }
  return s + ")";
}
