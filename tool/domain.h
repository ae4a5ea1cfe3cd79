// Abstract value domain: wrapped intervals x stride x label set x pointer set
// x a small symbolic tag used to recognise branch-free selects.
#pragma once
#include <cstdint>
#include <cstring>
#include <cstdio>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>

typedef unsigned __int128 u128;
typedef __int128 i128;

static inline u128 maskOf(unsigned w) {
  return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1);
}

// Label set.  Bit 0: secret.  Bit 127: uninitialised.
typedef u128 Labels;
static const Labels L_SECRET = 1;
static const Labels L_UNINIT = (u128)1 << 127;
// Bit 126: an uninitialised value that some path did initialise.
static const Labels L_MAYINIT = (u128)1 << 126;
static inline bool defUninit(Labels l) { return (l & L_UNINIT) && !(l & L_MAYINIT); }

enum : int32_t {
  O_NONE = 0,        // plain integer
  O_BOT = INT32_MIN, // no value on this path
};
// obj > 0: pointer to a single object (offset arc in lo..hi, 64 bit)
// obj < 0 (not BOT): index into the table of multi-target pointer sets

struct AV {
  u128 lo, hi;
  Labels lab;
  uint64_t stride; // 0: singleton; otherwise value == lo (mod stride)
  int32_t obj;
  uint32_t sym;
};

// Value-numbering mode: sym holds a term instead of a select tag.
extern bool vnMode;

static inline bool operator==(const AV &a, const AV &b) {
  return a.lo == b.lo && a.hi == b.hi && a.lab == b.lab && a.obj == b.obj &&
         a.stride == b.stride && (!vnMode || a.sym == b.sym || (a.lo == a.hi && a.obj == O_NONE));
}
static inline bool operator!=(const AV &a, const AV &b) { return !(a == b); }

static inline AV avConst(u128 v) { return AV{v, v, 0, 0, O_NONE, 0}; }
static inline AV avRange(u128 lo, u128 hi, Labels l = 0) {
  return AV{lo, hi, l, lo == hi ? 0u : 1u, O_NONE, 0};
}
static inline AV avTop(unsigned w, Labels l = 0) {
  return AV{0, maskOf(w), l, 1, O_NONE, 0};
}
static inline AV avBot() { return AV{0, 0, 0, 0, O_BOT, 0}; }
static inline AV avPtr(int32_t obj, int64_t off) {
  return AV{(u128)(uint64_t)off, (u128)(uint64_t)off, 0, 0, obj, 0};
}
static inline bool isConst(const AV &a) { return a.obj == O_NONE && a.lo == a.hi; }
static inline bool isFull(const AV &a, unsigned w) {
  return a.lo == 0 && a.hi == maskOf(w);
}

static inline u128 ssize(const AV &a, unsigned w) { return (a.hi - a.lo) & maskOf(w); }
static inline bool unwrapped(const AV &a) { return a.lo <= a.hi; }
static inline void ubounds(const AV &a, unsigned w, u128 &lo, u128 &hi) {
  if (a.lo <= a.hi) { lo = a.lo; hi = a.hi; }
  else { lo = 0; hi = maskOf(w); }
}
static inline i128 sx(u128 v, unsigned w) {
  if (w >= 128) return (i128)v;
  u128 s = (u128)1 << (w - 1);
  return (i128)((v ^ s) - s);
}
static inline bool sbounds(const AV &a, unsigned w, i128 &lo, i128 &hi) {
  u128 s = (u128)1 << (w - 1);
  u128 l = a.lo ^ s, h = a.hi ^ s;
  if (l <= h) { lo = sx(a.lo, w); hi = sx(a.hi, w); return true; }
  lo = sx(s, w); hi = (i128)(s - 1);
  return false;
}
static inline uint64_t gcd64(uint64_t a, uint64_t b) {
  while (b) { uint64_t t = a % b; a = b; b = t; }
  return a;
}
static inline uint64_t fitStride(u128 v) {
  if (v == 0) return 0;
  if (v >> 64) { // keep the power of two part only
    uint64_t s = 1;
    while (!(v & 1) && s < ((uint64_t)1 << 62)) { v >>= 1; s <<= 1; }
    return s;
  }
  return (uint64_t)v;
}
static inline AV mk(u128 lo, u128 hi, Labels l, uint64_t stride) {
  AV r{lo, hi, l, stride, O_NONE, 0};
  if (lo == hi) r.stride = 0;
  else if (stride == 0) r.stride = 1;
  return r;
}
// Canonicalise an arc that covers everything.
static inline AV mkArc(u128 lo, u128 hi, unsigned w, Labels l, uint64_t stride) {
  u128 m = maskOf(w);
  lo &= m; hi &= m;
  if (((hi + 1) & m) == lo && lo != 0) return avTop(w, l);
  if (lo > hi) stride = 1;
  return mk(lo, hi, l, stride);
}

// ---- symbolic tags -------------------------------------------------------
struct Sym {
  uint8_t kind; // 1 leaf, 2 mask, 3 not-mask, 4 gate, 5 xor
  uint32_t a, b;
  u128 lo, hi;
};
enum { SY_LEAF = 1, SY_MASK, SY_NOT, SY_GATE, SY_XOR };
static const uint32_t SYM_RING = 1u << 20;
struct SymTab {
  std::vector<Sym> ring;
  uint32_t next = 1;
  SymTab() : ring(SYM_RING) {}
  uint32_t add(const Sym &s) {
    uint32_t id = next++;
    ring[id & (SYM_RING - 1)] = s;
    return id;
  }
  const Sym *get(uint32_t id) const {
    if (id == 0 || vnMode || next - id >= SYM_RING) return nullptr;
    return &ring[id & (SYM_RING - 1)];
  }
};
extern SymTab symtab;

// ---- multi-target pointer sets ------------------------------------------
struct PEnt {
  int32_t obj; // O_NONE means the null pointer / integer part
  int64_t lo, hi;
  uint64_t stride;
  bool operator==(const PEnt &o) const {
    return obj == o.obj && lo == o.lo && hi == o.hi && stride == o.stride;
  }
};
struct PtrTab {
  std::vector<std::vector<PEnt>> sets{1};
  std::unordered_map<uint64_t, std::vector<int>> idx;
  int intern(std::vector<PEnt> v);
};
extern PtrTab ptrtab;
static inline const std::vector<PEnt> &ptrSet(const AV &a) { return ptrtab.sets[-a.obj]; }
void ptrEntries(const AV &a, std::vector<PEnt> &out);
AV ptrFrom(std::vector<PEnt> v, Labels l);

// ---- lattice -------------------------------------------------------------
extern bool joinUnsigned;
AV join(const AV &a, const AV &b, unsigned w);
bool leq(const AV &a, const AV &b, unsigned w);
AV widen(const AV &a, const AV &b, unsigned w);
AV avAdd(const AV &a, const AV &b, unsigned w);
AV avSub(const AV &a, const AV &b, unsigned w);
AV avMul(const AV &a, const AV &b, unsigned w);
AV avAnd(const AV &a, const AV &b, unsigned w);
AV avOr(const AV &a, const AV &b, unsigned w);
AV avXor(const AV &a, const AV &b, unsigned w);
AV avShl(const AV &a, const AV &b, unsigned w);
AV avLshr(const AV &a, const AV &b, unsigned w);
AV avAshr(const AV &a, const AV &b, unsigned w);
AV avUdiv(const AV &a, const AV &b, unsigned w);
AV avUrem(const AV &a, const AV &b, unsigned w);
AV avSdiv(const AV &a, const AV &b, unsigned w);
AV avSrem(const AV &a, const AV &b, unsigned w);
AV avZext(const AV &a, unsigned from, unsigned to);
AV avSext(const AV &a, unsigned from, unsigned to);
AV avTrunc(const AV &a, unsigned from, unsigned to);
// returns 0, 1 or 2 (unknown)
int avIcmp(int pred, const AV &a, const AV &b, unsigned w);
std::string u128s(u128 v);
std::string show(const AV &a, unsigned w);
