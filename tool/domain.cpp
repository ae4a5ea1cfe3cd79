#include "domain.h"
#include <algorithm>

SymTab symtab;
PtrTab ptrtab;

std::string u128s(u128 v) {
  char buf[40];
  if (v >> 64) snprintf(buf, sizeof buf, "0x%llx%016llx", (unsigned long long)(v >> 64), (unsigned long long)v);
  else snprintf(buf, sizeof buf, "0x%llx", (unsigned long long)v);
  return buf;
}

std::string show(const AV &a, unsigned w) {
  std::string s;
  if (a.obj == O_BOT) return "bot";
  if (a.obj > 0) s = "ptr(obj" + std::to_string(a.obj) + "+" + std::to_string((long long)(int64_t)a.lo) +
                     ".." + std::to_string((long long)(int64_t)a.hi) + ")";
  else if (a.obj < 0) {
    s = "ptrs{";
    for (auto &e : ptrSet(a)) s += "obj" + std::to_string(e.obj) + "+" + std::to_string(e.lo) + ".." + std::to_string(e.hi) + " ";
    s += "}";
  } else if (isFull(a, w)) s = "any";
  else if (a.lo == a.hi) s = u128s(a.lo);
  else s = "[" + u128s(a.lo) + "," + u128s(a.hi) + "]/" + std::to_string(a.stride);
  if (a.lab) s += " lab=" + u128s(a.lab);
  return s;
}

int PtrTab::intern(std::vector<PEnt> v) {
  uint64_t h = 1469598103934665603ull;
  for (auto &e : v) {
    h = (h ^ (uint64_t)e.obj) * 1099511628211ull;
    h = (h ^ (uint64_t)e.lo) * 1099511628211ull;
    h = (h ^ (uint64_t)e.hi) * 1099511628211ull;
    h = (h ^ e.stride) * 1099511628211ull;
  }
  auto &bucket = idx[h];
  for (int i : bucket)
    if (sets[i] == v) return i;
  sets.push_back(std::move(v));
  bucket.push_back((int)sets.size() - 1);
  return (int)sets.size() - 1;
}

void ptrEntries(const AV &a, std::vector<PEnt> &out) {
  out.clear();
  if (a.obj == O_BOT) return;
  if (a.obj > 0) { out.push_back({a.obj, (int64_t)a.lo, (int64_t)a.hi, a.stride}); return; }
  if (a.obj < 0) { out = ptrSet(a); return; }
  out.push_back({O_NONE, (int64_t)a.lo, (int64_t)a.hi, a.stride});
}

AV ptrFrom(std::vector<PEnt> v, Labels l) {
  if (v.empty()) return avBot();
  if (v.size() == 1) {
    AV r{(u128)(uint64_t)v[0].lo, (u128)(uint64_t)v[0].hi, l, v[0].stride, v[0].obj, 0};
    if (v[0].lo == v[0].hi) r.stride = 0;
    return r;
  }
  std::sort(v.begin(), v.end(), [](const PEnt &a, const PEnt &b) { return a.obj < b.obj; });
  AV r{0, maskOf(64), l, 1, 0, 0};
  r.obj = -ptrtab.intern(std::move(v));
  return r;
}

static inline Labels joinLab(Labels a, Labels b) {
  return (a | b) | (((a ^ b) & L_UNINIT) ? L_MAYINIT : 0);
}

static AV joinPtr(const AV &a, const AV &b) {
  static thread_local std::vector<PEnt> x, y;
  ptrEntries(a, x);
  ptrEntries(b, y);
  std::vector<PEnt> r = x;
  for (auto &e : y) {
    bool found = false;
    for (auto &f : r)
      if (f.obj == e.obj) {
        found = true;
        if (f == e) break;
        uint64_t d = (uint64_t)(f.lo < e.lo ? e.lo - f.lo : f.lo - e.lo);
        f.stride = gcd64(gcd64(f.stride, e.stride), d);
        f.lo = std::min(f.lo, e.lo);
        f.hi = std::max(f.hi, e.hi);
        if (f.lo != f.hi && f.stride == 0) f.stride = 1;
        break;
      }
    if (!found) r.push_back(e);
  }
  return ptrFrom(std::move(r), joinLab(a.lab, b.lab));
}

bool joinUnsigned = false;
AV join(const AV &a, const AV &b, unsigned w) {
  if (a.obj == O_BOT) return b;
  if (b.obj == O_BOT) return a;
  if (a.obj != O_NONE || b.obj != O_NONE) {
    if (a == b) { AV r = a; if (a.sym != b.sym) r.sym = 0; return r; }
    if (vnMode && a.obj == b.obj && a.lo == b.lo && a.hi == b.hi) { AV r = a; r.lab = joinLab(a.lab, b.lab); r.sym = 0; return r; }
    return joinPtr(a, b);
  }
  Labels l = joinLab(a.lab, b.lab);
  if (a.lo == b.lo && a.hi == b.hi) {
    AV r = a;
    r.lab = l;
    if (a.sym != b.sym) r.sym = 0;
    r.stride = gcd64(a.stride, b.stride);
    if (r.lo != r.hi && r.stride == 0) r.stride = 1;
    return r;
  }
  if (w == 0 || w > 128) w = 128;
  u128 m = maskOf(w);
  uint64_t st = 1;
  if (a.lo <= a.hi && b.lo <= b.hi) {
    u128 d = a.lo < b.lo ? b.lo - a.lo : a.lo - b.lo;
    st = gcd64(gcd64(a.stride, b.stride), fitStride(d));
    if (st == 0) st = 1;
  }
  if (joinUnsigned && a.lo <= a.hi && b.lo <= b.hi)
    return mk(a.lo < b.lo ? a.lo : b.lo, a.hi > b.hi ? a.hi : b.hi, l, st);
  // a inside b / b inside a
  u128 sa = ssize(a, w), sb = ssize(b, w);
  auto inside = [&](const AV &x, const AV &y, u128 sy) {
    u128 l = (x.lo - y.lo) & m, h = (x.hi - y.lo) & m;
    return l <= sy && h <= sy && l <= h;
  };
  AV r;
  if (inside(a, b, sb)) r = mk(b.lo, b.hi, l, b.lo <= b.hi ? st : 1);
  else if (inside(b, a, sa)) r = mk(a.lo, a.hi, l, a.lo <= a.hi ? st : 1);
  else {
    u128 s1 = (b.hi - a.lo) & m, s2 = (a.hi - b.lo) & m;
    AV c1 = mk(a.lo, b.hi, l, 1), c2 = mk(b.lo, a.hi, l, 1);
    bool ok1 = inside(a, c1, s1) && inside(b, c1, s1);
    bool ok2 = inside(a, c2, s2) && inside(b, c2, s2);
    if (ok1 && (!ok2 || s1 <= s2)) r = c1;
    else if (ok2) r = c2;
    else return avTop(w, l);
    if (r.lo <= r.hi && a.lo <= a.hi && b.lo <= b.hi) r = mk(r.lo, r.hi, l, st);
    if (r.lo > r.hi && ((r.hi + 1) & m) == r.lo) return avTop(w, l);
  }
  return r;
}

bool leq(const AV &a, const AV &b, unsigned w) {
  if (a.obj == O_BOT) return true;
  if (b.obj == O_BOT) return false;
  if (vnMode && b.sym && b.sym != a.sym && !(b.lo == b.hi)) return false;
  if (a.lab & ~b.lab) return false;
  if (defUninit(b.lab) && !(a.lab & L_UNINIT)) return false;
  if (a.obj != O_NONE || b.obj != O_NONE) {
    if (a.obj == b.obj && a.lo == b.lo && a.hi == b.hi && a.stride == b.stride) return true;
    static thread_local std::vector<PEnt> x, y;
    ptrEntries(a, x);
    ptrEntries(b, y);
    for (auto &e : x) {
      bool ok = false;
      for (auto &f : y)
        if (e.obj == f.obj) {
          ok = f.lo <= e.lo && e.hi <= f.hi &&
               (f.stride <= 1 || (e.stride % f.stride == 0 && (uint64_t)(e.lo - f.lo) % f.stride == 0));
        }
      if (!ok) return false;
    }
    return true;
  }
  if (isFull(b, w)) return b.stride <= 1;
  u128 m = maskOf(w);
  u128 sb = ssize(b, w);
  u128 l = (a.lo - b.lo) & m, h = (a.hi - b.lo) & m;
  if (!(l <= sb && h <= sb && l <= h)) return false;
  if (b.stride > 1) {
    if (a.stride % b.stride) return false;
    if (b.lo <= a.lo && (a.lo - b.lo) % b.stride) return false;
  }
  return true;
}

AV widen(const AV &a, const AV &b, unsigned w) {
  // b is already join(a, new); extrapolate unstable bounds
  if (a.obj == O_BOT || b.obj == O_BOT) return b;
  if (leq(b, a, w)) return a;
  if (a.obj != O_NONE || b.obj != O_NONE) {
    static thread_local std::vector<PEnt> x, y;
    ptrEntries(a, x);
    ptrEntries(b, y);
    std::vector<PEnt> r = y;
    for (auto &e : r)
      for (auto &f : x)
        if (e.obj == f.obj) {
          if (e.lo < f.lo) e.lo = -((int64_t)1 << 40);
          if (e.hi > f.hi) e.hi = (int64_t)1 << 40;
          if (e.lo != f.lo || e.hi != f.hi) {
            if (e.stride == 0) e.stride = 1;
            // keep alignment relative to the old lower bound
            if (e.lo != f.lo && e.stride > 1) {
              int64_t d = (f.lo - e.lo) % (int64_t)e.stride;
              e.lo += d;
            }
          }
        }
    return ptrFrom(std::move(r), b.lab);
  }
  u128 m = maskOf(w);
  if (a.lo > a.hi || b.lo > b.hi) return avTop(w, b.lab);
  u128 lo = b.lo, hi = b.hi;
  if (lo < a.lo) lo = 0;
  if (hi > a.hi) {
    // next power of two minus one
    u128 t = hi;
    for (unsigned s = 1; s < 128; s <<= 1) t |= t >> s;
    static const unsigned steps[] = {8, 16, 31, 32, 63, 64, 127, 128};
    u128 th = m;
    for (unsigned k : steps)
      if (k <= w && maskOf(k) >= t) { th = maskOf(k); break; }
    hi = th > m ? m : th;
  }
  uint64_t st = b.stride;
  if (lo != b.lo && st > 1) { st = gcd64(st, fitStride(b.lo)); if (!st) st = 1; }
  return mk(lo, hi, b.lab, st);
}

static inline AV ptrShift(const AV &p, const AV &d, bool neg) {
  Labels l = p.lab | d.lab;
  std::vector<PEnt> es;
  ptrEntries(p, es);
  i128 lo, hi;
  sbounds(d, 64, lo, hi);
  if (neg) { i128 t = lo; lo = -hi; hi = -t; }
  const int64_t LIM = (int64_t)1 << 40;
  for (auto &e : es) {
    i128 a = (i128)e.lo + lo, b = (i128)e.hi + hi;
    if (a < -LIM) a = -LIM;
    if (b > LIM) b = LIM;
    if (a > LIM) a = LIM;
    if (b < -LIM) b = -LIM;
    uint64_t st = gcd64(e.stride, d.stride);
    e.lo = (int64_t)a;
    e.hi = (int64_t)b;
    e.stride = e.lo == e.hi ? 0 : (st ? st : 1);
  }
  return ptrFrom(std::move(es), l);
}

AV avAdd(const AV &a, const AV &b, unsigned w) {
  Labels l = a.lab | b.lab;
  if (a.obj != O_NONE || b.obj != O_NONE) {
    if (a.obj != O_NONE && b.obj == O_NONE && w == 64) return ptrShift(a, b, false);
    if (b.obj != O_NONE && a.obj == O_NONE && w == 64) return ptrShift(b, a, false);
    return avTop(w, l);
  }
  u128 m = maskOf(w), sa = ssize(a, w), sb = ssize(b, w);
  if (isFull(a, w) || isFull(b, w)) return avTop(w, l);
  u128 s = sa + sb;
  if (s < sa || s > m || s == m) return avTop(w, l);
  return mkArc(a.lo + b.lo, a.hi + b.hi, w, l, gcd64(a.stride, b.stride));
}

AV avSub(const AV &a, const AV &b, unsigned w) {
  Labels l = a.lab | b.lab;
  if (a.obj != O_NONE || b.obj != O_NONE) {
    if (a.obj != O_NONE && b.obj == O_NONE && w == 64) return ptrShift(a, b, true);
    if (a.obj > 0 && a.obj == b.obj) {
      AV x = a, y = b;
      x.obj = y.obj = O_NONE;
      return avSub(x, y, w);
    }
    return avTop(w, l);
  }
  u128 m = maskOf(w), sa = ssize(a, w), sb = ssize(b, w);
  if (isFull(a, w) || isFull(b, w)) return avTop(w, l);
  u128 s = sa + sb;
  if (s < sa || s > m || s == m) return avTop(w, l);
  return mkArc(a.lo - b.hi, a.hi - b.lo, w, l, gcd64(a.stride, b.stride));
}

static bool mulOv(u128 a, u128 b, u128 m, u128 &r) {
  if (__builtin_mul_overflow(a, b, &r)) return true;
  return r > m;
}

AV avMul(const AV &a, const AV &b, unsigned w) {
  Labels l = a.lab | b.lab;
  if (a.obj != O_NONE || b.obj != O_NONE) return avTop(w, l);
  u128 m = maskOf(w);
  if (a.lo == a.hi && b.lo == b.hi) return mk((a.lo * b.lo) & m, (a.lo * b.lo) & m, l, 0);
  if ((a.lo == a.hi && a.lo == 0) || (b.lo == b.hi && b.lo == 0)) return mk(0, 0, l, 0);
  uint64_t st = 1;
  if (b.lo == b.hi) { u128 t = (u128)a.stride * b.lo; if (!(b.lo >> 64)) st = fitStride(t); }
  else if (a.lo == a.hi) { u128 t = (u128)b.stride * a.lo; if (!(a.lo >> 64)) st = fitStride(t); }
  u128 r, q;
  if (a.lo <= a.hi && b.lo <= b.hi && !mulOv(a.hi, b.hi, m, r)) {
    q = a.lo * b.lo;
    return mk(q, r, l, st);
  }
  i128 al, ah, bl, bh;
  if (sbounds(a, w, al, ah) && sbounds(b, w, bl, bh)) {
    i128 c[4], s1 = (i128)1 << (w - 1 > 126 ? 126 : w - 1);
    bool ok = !__builtin_mul_overflow(al, bl, &c[0]) && !__builtin_mul_overflow(al, bh, &c[1]) &&
              !__builtin_mul_overflow(ah, bl, &c[2]) && !__builtin_mul_overflow(ah, bh, &c[3]);
    if (ok) {
      i128 mn = std::min(std::min(c[0], c[1]), std::min(c[2], c[3]));
      i128 mx = std::max(std::max(c[0], c[1]), std::max(c[2], c[3]));
      if (mn >= -s1 && mx <= s1 - 1) return mkArc((u128)mn, (u128)mx, w, l, st);
    }
  }
  const AV *c = a.lo == a.hi ? &a : b.lo == b.hi ? &b : nullptr;
  const AV *x = c == &a ? &b : &a;
  if (c) {
    u128 k = c->lo;
    u128 sz = ssize(*x, w);
    if (!mulOv(sz, k, m, r) && r < m) return mkArc(x->lo * k, x->hi * k, w, l, 1);
    // multiplication by 2^k keeps divisibility
    uint64_t p2 = st & -st;
    if (p2 > 1) return mk(0, m - (p2 - 1), l, p2);
  }
  return avTop(w, l);
}

static u128 smear(u128 t) {
  for (unsigned s = 1; s < 128; s <<= 1) t |= t >> s;
  return t;
}

static inline bool isMaskArc(const AV &a, unsigned w) {
  return a.obj == O_NONE && a.hi == 0 && a.lo == maskOf(w);
}

AV avAnd(const AV &a0, const AV &b0, unsigned w) {
  const AV *pa = &a0, *pb = &b0;
  Labels l = pa->lab | pb->lab;
  if (pa->obj != O_NONE || pb->obj != O_NONE) {
    // pointer alignment arithmetic
    if (pa->obj != O_NONE && pb->obj == O_NONE && isConst(*pb)) return avTop(w, l);
    return avTop(w, l);
  }
  if (pa->lo == pa->hi) std::swap(pa, pb);
  const AV &a = *pa, &b = *pb; // b constant if any is
  u128 m = maskOf(w);
  if (a.lo == a.hi && b.lo == b.hi) return mk(a.lo & b.lo, a.lo & b.lo, l, 0);
  u128 alo, ahi, blo, bhi;
  ubounds(a, w, alo, ahi);
  ubounds(b, w, blo, bhi);
  if (b.lo == b.hi) {
    u128 c = b.lo;
    if (c == 0) return mk(0, 0, l, 0);
    if (c == m) { AV r = a; r.lab = l; return r; }
    if ((c & (c + 1)) == 0) { // low mask
      if (a.lo <= a.hi && a.hi <= c) { AV r = a; r.lab = l; return r; }
      if (ssize(a, w) < c && (a.lo & c) <= (a.hi & c)) return mk(a.lo & c, a.hi & c, l, a.lo <= a.hi && (a.stride & (a.stride - 1)) == 0 ? a.stride : 1);
      uint64_t st = 1;
      if (a.lo <= a.hi && a.stride > 1) { uint64_t p2 = a.stride & -a.stride; if (p2 > 1 && (a.lo & (p2 - 1)) == 0 && c >= p2) { st = p2; return mk(0, c & ~(u128)(p2 - 1), l, st); } }
      return mk(0, c < ahi ? c : ahi, l, 1);
    }
    u128 inv = ~c & m;
    if ((inv & (inv + 1)) == 0) { // high mask
      if (a.lo <= a.hi) return mk(a.lo & c, a.hi & c, l, fitStride(inv + 1));
      return mk(0, c, l, fitStride(inv + 1));
    }
    // the leading bits that all values share are known
    u128 low = alo ^ ahi;
    for (unsigned k = 1; k < 128; k <<= 1) low |= low >> k;
    if (u128 base = alo & c & ~low) {
      u128 rest = c & low;
      if (!rest) return mk(base, base, l, 0);
      return mk(base, base | rest, l, 1);
    }
    c &= low;
    if (c == 0) return mk(0, 0, l, 0);
    u128 hi = c < ahi ? c : ahi;
    uint64_t tz = 1;
    u128 cc = c;
    while (!(cc & 1) && tz < ((uint64_t)1 << 62)) { cc >>= 1; tz <<= 1; }
    return mk(0, hi & ~(u128)(tz - 1), l, tz);
  }
  AV r = mk(0, ahi < bhi ? ahi : bhi, l, 1);
  // gate by an all-ones/all-zeros mask
  const AV *mk_ = isMaskArc(b, w) ? &b : isMaskArc(a, w) ? &a : nullptr;
  if (mk_) {
    const AV &x = mk_ == &b ? a : b;
    const Sym *s = symtab.get(mk_->sym);
    if (s && (s->kind == SY_MASK || s->kind == SY_NOT)) {
      if (!(isMaskArc(x, w)))
        r.sym = symtab.add({SY_GATE, mk_->sym, x.sym, x.lo, x.hi});
    }
    if (isMaskArc(x, w)) r = mkArc(m, 0, w, l, 1);
  }
  return r;
}

static AV gateCombine(const AV &a, const AV &b, unsigned w, Labels l, bool &ok) {
  ok = false;
  const Sym *sa = symtab.get(a.sym), *sb = symtab.get(b.sym);
  if (!sa || !sb || sa->kind != SY_GATE || sb->kind != SY_GATE) return avBot();
  uint32_t ma = sa->a, mb = sb->a;
  const Sym *qa = symtab.get(ma), *qb = symtab.get(mb);
  if (!qa || !qb) return avBot();
  bool compl_ = (qa->kind == SY_NOT && qa->a == mb) || (qb->kind == SY_NOT && qb->a == ma);
  if (!compl_) return avBot();
  ok = true;
  AV r = join(mk(sa->lo, sa->hi, l, 1), mk(sb->lo, sb->hi, l, 1), w);
  return r;
}

AV avOr(const AV &a, const AV &b, unsigned w) {
  Labels l = a.lab | b.lab;
  if (a.obj != O_NONE || b.obj != O_NONE) return avTop(w, l);
  if (a.lo == a.hi && b.lo == b.hi) return mk(a.lo | b.lo, a.lo | b.lo, l, 0);
  if (b.lo == b.hi && b.lo == 0) { AV r = a; r.lab = l; return r; }
  if (a.lo == a.hi && a.lo == 0) { AV r = b; r.lab = l; return r; }
  bool ok;
  AV g = gateCombine(a, b, w, l, ok);
  if (ok) return g;
  if (isMaskArc(a, w) && isMaskArc(b, w)) return mkArc(maskOf(w), 0, w, l, 1);
  u128 alo, ahi, blo, bhi;
  ubounds(a, w, alo, ahi);
  ubounds(b, w, blo, bhi);
  // disjoint bits: a < 2^k, b multiple of 2^k  ->  a + b
  uint64_t sb = b.lo == b.hi ? fitStride(b.lo) : b.stride, sa = a.lo == a.hi ? fitStride(a.lo) : a.stride;
  if (a.lo <= a.hi && b.lo <= b.hi) {
    uint64_t pb = sb & -sb;
    if (pb > 1 && (blo & (pb - 1)) == 0 && ahi < pb && (blo != 0 || b.lo == b.hi || true))
      return mk(alo + blo, ahi + bhi, l, gcd64(a.stride, b.stride));
    uint64_t pa = sa & -sa;
    if (pa > 1 && (alo & (pa - 1)) == 0 && bhi < pa)
      return mk(alo + blo, ahi + bhi, l, gcd64(a.stride, b.stride));
  }
  u128 lo = alo > blo ? alo : blo;
  return mk(lo, smear(ahi | bhi), l, 1);
}

AV avXor(const AV &a, const AV &b, unsigned w) {
  Labels l = a.lab | b.lab;
  if (a.obj != O_NONE || b.obj != O_NONE) return avTop(w, l);
  u128 m = maskOf(w);
  if (a.lo == a.hi && b.lo == b.hi) return mk(a.lo ^ b.lo, a.lo ^ b.lo, l, 0);
  const AV *c = b.lo == b.hi ? &b : a.lo == a.hi ? &a : nullptr;
  const AV &x = c == &a ? b : a;
  if (c && c->lo == 0) { AV r = x; r.lab = l; return r; }
  if (c && c->lo == m) {
    AV r = mk(~x.hi & m, ~x.lo & m, l, x.lo <= x.hi ? x.stride : 1);
    const Sym *s = symtab.get(x.sym);
    if (s && s->kind == SY_MASK) r.sym = symtab.add({SY_NOT, x.sym, 0, 0, 0});
    else if (s && s->kind == SY_NOT) r.sym = s->a;
    return r;
  }
  if (c && c->lo == 1 && x.lo == 0 && x.hi == 1) return mk(0, 1, l, 1);
  bool ok;
  AV g = gateCombine(a, b, w, l, ok);
  if (ok) return g;
  // x ^ (m & (x ^ y))  ->  x or y
  const Sym *sa = symtab.get(a.sym), *sb = symtab.get(b.sym);
  for (int k = 0; k < 2; k++) {
    const Sym *gate = k ? sa : sb;
    const AV &v = k ? b : a;
    if (gate && gate->kind == SY_GATE && v.sym) {
      const Sym *xs = symtab.get(gate->b);
      if (xs && xs->kind == SY_XOR && (xs->a == v.sym || xs->b == v.sym)) {
        const Sym *la = symtab.get(xs->a), *lb = symtab.get(xs->b);
        if (la && lb) return join(mk(la->lo, la->hi, l, 1), mk(lb->lo, lb->hi, l, 1), w);
      }
    }
  }
  if (isMaskArc(a, w) && isMaskArc(b, w)) return mkArc(m, 0, w, l, 1);
  u128 alo, ahi, blo, bhi;
  ubounds(a, w, alo, ahi);
  ubounds(b, w, blo, bhi);
  u128 hi = smear(ahi | bhi);
  return mk(ahi < blo || bhi < alo ? 1 : 0, hi, l, 1);
}

AV avShl(const AV &a, const AV &b, unsigned w) {
  Labels l = a.lab | b.lab;
  if (a.obj != O_NONE || b.obj != O_NONE) return avTop(w, l);
  u128 m = maskOf(w);
  if (b.lo == b.hi) {
    if (b.lo >= w) return avTop(w, l);
    unsigned k = (unsigned)b.lo;
    if (a.lo == a.hi) return mk((a.lo << k) & m, (a.lo << k) & m, l, 0);
    u128 st = (u128)a.stride << (k > 62 ? 62 : k);
    if (a.lo <= a.hi && a.hi <= (m >> k)) return mk(a.lo << k, a.hi << k, l, fitStride(st));
    uint64_t p2 = k > 62 ? ((uint64_t)1 << 62) : ((uint64_t)1 << k);
    return mk(0, (m >> k) << k, l, p2 > 1 ? p2 : 1);
  }
  u128 alo, ahi;
  ubounds(a, w, alo, ahi);
  if (b.lo <= b.hi && b.hi < w && ahi <= (m >> (unsigned)b.hi))
    return mk(alo << (unsigned)b.lo, ahi << (unsigned)b.hi, l, 1);
  return avTop(w, l);
}

AV avLshr(const AV &a, const AV &b, unsigned w) {
  Labels l = a.lab | b.lab;
  if (a.obj != O_NONE || b.obj != O_NONE) return avTop(w, l);
  u128 alo, ahi;
  ubounds(a, w, alo, ahi);
  if (b.lo == b.hi) {
    if (b.lo >= w) return avTop(w, l);
    unsigned k = (unsigned)b.lo;
    uint64_t st = 1;
    if (a.lo <= a.hi && k < 64 && a.stride && (a.stride >> k) << k == a.stride && ((a.lo >> k) << k) == a.lo) st = a.stride >> k;
    // an arc through zero of small size, e.g. [-x, y] >> (w-1)
    return mk(alo >> k, ahi >> k, l, st ? st : 1);
  }
  u128 blo = b.lo <= b.hi ? b.lo : 0, bhi = b.lo <= b.hi ? b.hi : maskOf(w);
  if (bhi >= w) bhi = w - 1;
  if (blo >= w) return avTop(w, l);
  return mk(alo >> (unsigned)bhi, ahi >> (unsigned)blo, l, 1);
}

AV avAshr(const AV &a, const AV &b, unsigned w) {
  Labels l = a.lab | b.lab;
  if (a.obj != O_NONE || b.obj != O_NONE) return avTop(w, l);
  i128 lo, hi;
  sbounds(a, w, lo, hi);
  if (b.lo == b.hi) {
    if (b.lo >= w) return avTop(w, l);
    unsigned k = (unsigned)b.lo;
    return mkArc((u128)(lo >> k), (u128)(hi >> k), w, l, 1);
  }
  if (lo >= 0) return mk(0, (u128)hi, l, 1);
  return mkArc((u128)lo, (u128)(hi > 0 ? hi : (i128)-1 > hi ? (i128)-1 : 0), w, l, 1);
}

AV avUdiv(const AV &a, const AV &b, unsigned w) {
  Labels l = a.lab | b.lab;
  if (a.obj != O_NONE || b.obj != O_NONE) return avTop(w, l);
  u128 alo, ahi, blo, bhi;
  ubounds(a, w, alo, ahi);
  ubounds(b, w, blo, bhi);
  if (blo == 0) blo = 1;
  if (bhi == 0) return avTop(w, l);
  return mk(alo / bhi, ahi / blo, l, 1);
}

AV avUrem(const AV &a, const AV &b, unsigned w) {
  Labels l = a.lab | b.lab;
  if (a.obj != O_NONE || b.obj != O_NONE) return avTop(w, l);
  u128 alo, ahi, blo, bhi;
  ubounds(a, w, alo, ahi);
  ubounds(b, w, blo, bhi);
  if (bhi == 0) return avTop(w, l);
  if (a.lo == a.hi && b.lo == b.hi && b.lo) return mk(a.lo % b.lo, a.lo % b.lo, l, 0);
  if (ahi < blo) { AV r = a; r.lab = l; r.sym = 0; return r; }
  u128 hi = bhi - 1;
  if (ahi < hi) hi = ahi;
  return mk(0, hi, l, 1);
}

AV avSdiv(const AV &a, const AV &b, unsigned w) {
  Labels l = a.lab | b.lab;
  if (a.obj != O_NONE || b.obj != O_NONE) return avTop(w, l);
  i128 al, ah, bl, bh;
  sbounds(a, w, al, ah);
  sbounds(b, w, bl, bh);
  if (bl > 0) {
    i128 c[4] = {al / bl, al / bh, ah / bl, ah / bh};
    i128 mn = std::min(std::min(c[0], c[1]), std::min(c[2], c[3]));
    i128 mx = std::max(std::max(c[0], c[1]), std::max(c[2], c[3]));
    return mkArc((u128)mn, (u128)mx, w, l, 1);
  }
  if (a.lo == a.hi && b.lo == b.hi && b.lo) { u128 r = (u128)(sx(a.lo, w) / sx(b.lo, w)) & maskOf(w); return mk(r, r, l, 0); }
  return avTop(w, l);
}

AV avSrem(const AV &a, const AV &b, unsigned w) {
  Labels l = a.lab | b.lab;
  if (a.obj != O_NONE || b.obj != O_NONE) return avTop(w, l);
  i128 al, ah, bl, bh;
  sbounds(a, w, al, ah);
  sbounds(b, w, bl, bh);
  if (a.lo == a.hi && b.lo == b.hi && b.lo) { u128 r = (u128)(sx(a.lo, w) % sx(b.lo, w)) & maskOf(w); return mk(r, r, l, 0); }
  if (bl > 0) {
    if (al >= 0) { i128 hi = bh - 1; if (ah < bl) { AV r = a; r.lab = l; r.sym = 0; return r; } if (ah < hi) hi = ah; return mk(0, (u128)hi, l, 1); }
    return mkArc((u128)(-(bh - 1)), (u128)(ah > 0 ? bh - 1 : 0), w, l, 1);
  }
  return avTop(w, l);
}

AV avZext(const AV &a, unsigned from, unsigned to) {
  if (a.obj != O_NONE) return from >= 64 ? a : avTop(to, a.lab);
  u128 lo, hi;
  ubounds(a, from, lo, hi);
  AV r = mk(lo, hi, a.lab, a.lo <= a.hi ? a.stride : 1);
  if (a.lo <= a.hi) r.sym = a.sym;
  const Sym *s = symtab.get(r.sym);
  if (s && (s->kind == SY_MASK || s->kind == SY_NOT)) r.sym = 0;
  return r;
}

AV avSext(const AV &a, unsigned from, unsigned to) {
  if (a.obj != O_NONE) return from >= 64 ? a : avTop(to, a.lab);
  i128 lo, hi;
  sbounds(a, from, lo, hi);
  AV r = mkArc((u128)lo, (u128)hi, to, a.lab, a.lo <= a.hi && lo >= 0 ? a.stride : 1);
  r.sym = a.sym;
  return r;
}

AV avTrunc(const AV &a, unsigned from, unsigned to) {
  if (a.obj != O_NONE) return avTop(to, a.lab);
  u128 m = maskOf(to);
  if (a.lo == a.hi) { AV r = mk(a.lo & m, a.lo & m, a.lab, 0); return r; }
  u128 s = ssize(a, from);
  if (s < m) {
    AV r = mkArc(a.lo, a.hi, to, a.lab, (a.lo <= a.hi && (a.lo & m) <= (a.hi & m)) ? a.stride : 1);
    if (a.hi <= m && a.lo <= a.hi) r.sym = a.sym;
    const Sym *q = symtab.get(a.sym);
    if (q && (q->kind == SY_MASK || q->kind == SY_NOT)) r.sym = a.sym;
    return r;
  }
  uint64_t p2 = a.lo <= a.hi ? (a.stride & -a.stride) : 1;
  if (p2 > 1 && p2 <= m && (a.lo & (p2 - 1)) == 0) return mk(0, m & ~(u128)(p2 - 1), a.lab, p2);
  return avTop(to, a.lab);
}

// predicate numbers follow llvm::CmpInst::Predicate
int avIcmp(int pred, const AV &a, const AV &b, unsigned w) {
  enum { EQ = 32, NE, UGT, UGE, ULT, ULE, SGT, SGE, SLT, SLE };
  if (a.obj != O_NONE || b.obj != O_NONE) {
    if (a.obj == O_BOT || b.obj == O_BOT) return 2;
    if (a.obj > 0 && b.obj > 0) {
      if (a.obj != b.obj) return pred == EQ ? 0 : pred == NE ? 1 : 2;
      AV x = a, y = b;
      x.obj = y.obj = O_NONE;
      return avIcmp(pred, x, y, w);
    }
    // pointer against null
    const AV &p = a.obj != O_NONE ? a : b;
    const AV &q = a.obj != O_NONE ? b : a;
    if (q.obj == O_NONE && q.lo == 0 && q.hi == 0) {
      bool mayNull = false;
      if (p.obj < 0)
        for (auto &e : ptrSet(p))
          if (e.obj == O_NONE) mayNull = true;
      if (!mayNull) {
        if (pred == EQ) return 0;
        if (pred == NE) return 1;
        if (a.obj != O_NONE) { if (pred == UGT) return 1; if (pred == ULE) return 0; }
      }
    }
    return 2;
  }
  u128 al, ah, bl, bh;
  ubounds(a, w, al, ah);
  ubounds(b, w, bl, bh);
  i128 sal, sah, sbl, sbh;
  switch (pred) {
  case EQ:
  case NE: {
    int r = 2;
    if (a.lo == a.hi && b.lo == b.hi) r = a.lo == b.lo;
    else {
      // disjoint arcs?
      u128 m = maskOf(w);
      u128 sa = ssize(a, w), sb = ssize(b, w);
      bool inter = ((b.lo - a.lo) & m) <= sa || ((a.lo - b.lo) & m) <= sb;
      if (!inter) r = 0;
      else if (a.lo <= a.hi && b.lo == b.hi && a.stride > 1 && b.lo >= a.lo && (b.lo - a.lo) % a.stride) r = 0;
      else if (b.lo <= b.hi && a.lo == a.hi && b.stride > 1 && a.lo >= b.lo && (a.lo - b.lo) % b.stride) r = 0;
    }
    if (r == 2) return 2;
    return pred == EQ ? r : !r;
  }
  case UGT: return al > bh ? 1 : ah <= bl ? 0 : 2;
  case UGE: return al >= bh ? 1 : ah < bl ? 0 : 2;
  case ULT: return ah < bl ? 1 : al >= bh ? 0 : 2;
  case ULE: return ah <= bl ? 1 : al > bh ? 0 : 2;
  default: break;
  }
  sbounds(a, w, sal, sah);
  sbounds(b, w, sbl, sbh);
  switch (pred) {
  case SGT: return sal > sbh ? 1 : sah <= sbl ? 0 : 2;
  case SGE: return sal >= sbh ? 1 : sah < sbl ? 0 : 2;
  case SLT: return sah < sbl ? 1 : sal >= sbh ? 0 : 2;
  case SLE: return sah <= sbl ? 1 : sal > sbh ? 0 : 2;
  }
  return 2;
}
