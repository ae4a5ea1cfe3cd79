#include "mem.h"
#include "vn.h"
#include <algorithm>

std::vector<Obj *> initialGlobals(1, nullptr);

Page *pageRef(Page *p) { p->rc++; return p; }
void pageUnref(Page *p) { if (--p->rc == 0) delete p; }
void objUnref(Obj *o) {
  if (--o->rc == 0) {
    for (auto *p : o->pages) pageUnref(p);
    delete o;
  }
}

Mem::Mem(const Mem &o) : stack(o.stack), other(o.other), imp(o.imp) {
  for (auto *x : stack) x->rc++;
  for (auto &x : other) x.second->rc++;
}
void Mem::clear() {
  for (auto *x : stack) objUnref(x);
  for (auto &x : other) objUnref(x.second);
  stack.clear();
  other.clear();
}

static Page *filled(const AV &b) {
  Page *p = new Page;
  p->cells.push_back(Cell{0, (uint16_t)PG, 1, b});
  return p;
}

Obj *newObj(int64_t size, const ObjInfo *info, const AV &byte) {
  Obj *o = new Obj;
  o->size = size;
  o->info = info;
  int64_t n = (size + PG - 1) / PG;
  if (n == 0) n = 1;
  if (size < 0 || size > ((int64_t)64 << 20)) { o->summ = true; n = 1; }
  Page *p = filled(byte);
  o->pages.assign(n, p);
  p->rc = (int)n;
  return o;
}

const Obj *lookup(const Mem &m, int id) {
  if (id >= ID_STACK) {
    size_t i = id - ID_STACK;
    return i < m.stack.size() ? m.stack[i] : nullptr;
  }
  auto it = m.other.find(id);
  if (it != m.other.end()) return it->second;
  if (id < (int)initialGlobals.size()) return initialGlobals[id];
  return nullptr;
}

static Obj *cloneObj(const Obj *o) {
  Obj *n = new Obj(*o);
  n->rc = 1;
  for (auto *p : n->pages) p->rc++;
  return n;
}

Obj *lookupW(Mem &m, int id) {
  if (id >= ID_STACK) {
    size_t i = id - ID_STACK;
    if (i >= m.stack.size()) return nullptr;
    Obj *&o = m.stack[i];
    if (o->rc > 1) { Obj *n = cloneObj(o); o->rc--; o = n; }
    return o;
  }
  auto it = m.other.find(id);
  if (it != m.other.end()) {
    if (it->second->rc > 1) { Obj *n = cloneObj(it->second); it->second->rc--; it->second = n; }
    return it->second;
  }
  if (id < (int)initialGlobals.size() && initialGlobals[id]) {
    Obj *n = cloneObj(initialGlobals[id]);
    m.other[id] = n;
    return n;
  }
  return nullptr;
}

static inline Page *pageW(Obj *o, int64_t pi) {
  Page *&p = o->pages[pi];
  if (p->rc > 1) {
    Page *n = new Page;
    n->cells = p->cells;
    p->rc--;
    p = n;
  }
  return p;
}

static inline int findCell(const Page *p, int off) {
  // last cell with cell.off <= off
  const auto &c = p->cells;
  int lo = 0, hi = (int)c.size() - 1;
  while (lo < hi) {
    int mid = (lo + hi + 1) >> 1;
    if (c[mid].off <= off) lo = mid;
    else hi = mid - 1;
  }
  return lo;
}

static AV subElem(const Cell &c, unsigned pos, unsigned n) {
  // bytes [pos, pos+n) of one element
  if (pos == 0 && n == c.es) { AV v = c.v; if (c.len != c.es) v.sym = 0; return v; }
  if (c.v.obj != O_NONE) return avTop(n * 8, c.v.lab);
  unsigned w = c.es * 8;
  AV t = pos ? avLshr(c.v, avConst(pos * 8), w) : c.v;
  t = avTrunc(t, w, n * 8);
  t.sym = vnMode && (c.len == c.es || isConst(c.v)) ? vnSlice(vnOf(c.v, w), pos, n) : 0;
  return t;
}

static AV readByte(const Obj *o, int64_t off) {
  const Page *p = o->pages[off / PG];
  int po = off % PG;
  const Cell &c = p->cells[findCell(p, po)];
  return subElem(c, (po - c.off) % c.es, 1);
}

AV readMem(const Obj *o, int64_t off, unsigned size) {
  if (o->summ) {
    const Cell &c = o->pages[0]->cells[0];
    if (c.es == size) { AV v = c.v; v.sym = 0; return v; }
    if (isConst(c.v) && c.v.lo == 0) return mk(0, 0, c.v.lab, 0);
    if (c.v.obj != O_NONE && size == 8) return c.v;
    return avTop(size * 8, c.v.lab);
  }
  if (off < 0 || off + (int64_t)size > o->size) return avTop(size > 16 ? 128 : size * 8, 0); // reported by whoever got here
  int64_t pi = off / PG;
  int po = off % PG;
  const Page *p = o->pages[pi];
  const Cell &c = p->cells[findCell(p, po)];
  unsigned rel = po - c.off;
  if (c.es == size && rel % size == 0 && rel + size <= c.len) {
    AV v = c.v;
    if (c.len != c.es) v.sym = 0;
    return v;
  }
  if (rel % c.es + size <= c.es) return subElem(c, rel % c.es, size);
  // compose from bytes
  if (size > 16) return avTop(128, labelsOf(o, off, size));
  u128 lo = 0, hi = 0;
  Labels l = 0;
  bool ptr = false;
  uint32_t ids[16];
  for (unsigned i = 0; i < size;) {
    // use the largest whole element available
    const Page *q = o->pages[(off + i) / PG];
    int qo = (off + i) % PG;
    const Cell &d = q->cells[findCell(q, qo)];
    unsigned r = (qo - d.off) % d.es;
    unsigned n = std::min<unsigned>(d.es - r, size - i);
    AV b = subElem(d, r, n);
    if (b.obj != O_NONE) ptr = true;
    u128 bl, bh;
    ubounds(b, n * 8, bl, bh);
    lo |= bl << (8 * i);
    hi |= bh << (8 * i);
    l |= b.lab;
    if (vnMode) {
      uint32_t id = vnOf(b, n * 8);
      if (d.len != d.es && !isConst(d.v)) id = 0;
      for (unsigned k = 0; k < n; k++) ids[i + k] = vnSlice(id, k, 1);
    }
    i += n;
  }
  if (ptr) return avTop(size * 8, l);
  AV r = mk(lo, hi, l, 1);
  if (vnMode && !(l & L_UNINIT)) { r.sym = vnCatBytes(ids, size); vnRefine(r, size * 8); }
  return r;
}

// Make sure a cell boundary exists at in-page offset off.
static void splitAt(Page *p, int off) {
  if (off <= 0 || off >= PG) return;
  int i = findCell(p, off);
  Cell c = p->cells[i];
  if (c.off == off) return;
  unsigned rel = off - c.off;
  if (rel % c.es == 0) {
    Cell d = c;
    p->cells[i].len = rel;
    p->cells[i].v.sym = 0;
    d.off = off;
    d.len = c.len - rel;
    d.v.sym = 0;
    p->cells.insert(p->cells.begin() + i + 1, d);
    return;
  }
  // inside an element: break that element into bytes
  unsigned es0 = rel / c.es * c.es; // element start relative to cell
  std::vector<Cell> repl;
  if (es0) { Cell d = c; d.len = es0; d.v.sym = 0; repl.push_back(d); }
  for (unsigned b = 0; b < c.es; b++) {
    Cell d;
    d.off = c.off + es0 + b;
    d.len = 1;
    d.es = 1;
    d.v = subElem(c, b, 1);
    repl.push_back(d);
  }
  if (es0 + c.es < c.len) {
    Cell d = c;
    d.off = c.off + es0 + c.es;
    d.len = c.len - es0 - c.es;
    d.v.sym = 0;
    repl.push_back(d);
  }
  p->cells.erase(p->cells.begin() + i);
  p->cells.insert(p->cells.begin() + i, repl.begin(), repl.end());
}

static void replaceRange(Page *p, int off, int len, unsigned es, const AV &v) {
  splitAt(p, off);
  splitAt(p, off + len);
  int i = findCell(p, off);
  int j = i;
  while (j < (int)p->cells.size() && p->cells[j].off < off + len) j++;
  Cell c;
  c.off = off;
  c.len = len;
  c.es = es;
  c.v = v;
  if (len != (int)es) c.v.sym = 0;
  p->cells[i] = c;
  if (j > i + 1) p->cells.erase(p->cells.begin() + i + 1, p->cells.begin() + j);
}

static void summJoin(Obj *o, unsigned size, const AV &v) {
  Page *p = pageW(o, 0);
  Cell &c = p->cells[0];
  if (c.es == size) c.v = join(c.v, v, size * 8);
  else if (c.v.lab == L_UNINIT && (c.es == 1)) { c.es = size; c.v = join(avBot(), v, size * 8); c.v.lab |= L_UNINIT; }
  else { c.es = 1; c.v = avTop(8, c.v.lab | v.lab | L_MAYINIT); }
  c.v.sym = 0;
}

void writeMem(Obj *o, int64_t off, unsigned size, const AV &v) {
  if (o->summ) { summJoin(o, size, v); return; }
  int64_t pi = off / PG;
  int po = off % PG;
  if (po + (int)size <= PG) {
    Page *p = pageW(o, pi);
    int i = findCell(p, po);
    Cell &c = p->cells[i];
    if (c.off == po && c.len == size && c.es == size) { c.v = v; return; }
    replaceRange(p, po, size, size, v);
    return;
  }
  Cell t{0, (uint16_t)size, (uint8_t)size, v};
  for (unsigned i = 0; i < size; i++) {
    AV b = subElem(t, i, 1);
    Page *p = pageW(o, (off + i) / PG);
    replaceRange(p, (off + i) % PG, 1, 1, b);
  }
}

void weakWrite(Obj *o, int64_t off, unsigned size, const AV &v) {
  if (o->summ) { summJoin(o, size, v); return; }
  AV old = readMem(o, off, size);
  AV n = join(old, v, size * 8);
  if (!vnMode) n.sym = 0;
  if (n == old) return;
  writeMem(o, off, size, n);
}

void fillMem(Obj *o, int64_t off, int64_t n, const AV &v, bool weak) {
  if (o->summ) { summJoin(o, 1, v); return; }
  while (n > 0) {
    int64_t pi = off / PG;
    int po = off % PG;
    int64_t k = std::min<int64_t>(n, PG - po);
    if (!weak) {
      if (po == 0 && k == PG) {
        Page *old = o->pages[pi];
        o->pages[pi] = filled(v);
        pageUnref(old);
      } else replaceRange(pageW(o, pi), po, (int)k, 1, v);
    } else {
      Page *p = pageW(o, pi);
      splitAt(p, po);
      splitAt(p, po + (int)k);
      for (auto &c : p->cells)
        if (c.off >= po && c.off < po + k) {
          if (c.es == 1) c.v = join(c.v, v, 8);
          else if (isConst(v) && v.lo == 0 && c.v.obj == O_NONE) { AV z = mk(0, 0, v.lab, 0); c.v = join(c.v, z, c.es * 8); }
          else if (isConst(v) && v.lo == 0) { AV z = mk(0, 0, v.lab, 0); c.v = join(c.v, z, 64); }
          else { c.v = avTop(c.es * 8, c.v.lab | v.lab | (((c.v.lab ^ v.lab) & L_UNINIT) ? L_MAYINIT : 0)); }
          c.v.sym = 0;
        }
    }
    off += k;
    n -= k;
  }
}

void copyMem(Obj *dst, int64_t doff, const Obj *src, int64_t soff, int64_t n, bool weak) {
  if (n <= 0) return;
  if (src->summ || dst->summ) {
    AV v = src->summ ? src->pages[0]->cells[0].v : avTop(8, labelsOf(src, soff, n));
    unsigned es = src->summ ? src->pages[0]->cells[0].es : 1;
    v.sym = 0;
    if (dst->summ) { summJoin(dst, es, v); return; }
    AV b = es == 1 ? v : avTop(8, v.lab);
    if (isConst(v) && v.lo == 0 && v.obj == O_NONE) b = mk(0, 0, v.lab, 0);
    fillMem(dst, doff, n, b, weak);
    return;
  }
  // snapshot the source cells first (overlap safe)
  struct Piece { int64_t off; int len; uint8_t es; AV v; };
  std::vector<Piece> ps;
  int64_t o = soff, end = soff + n;
  while (o < end) {
    const Page *p = src->pages[o / PG];
    int po = o % PG;
    int i = findCell(p, po);
    const Cell &c = p->cells[i];
    unsigned rel = po - c.off;
    int64_t avail = std::min<int64_t>(c.len - rel, end - o);
    if (rel % c.es == 0 && avail >= c.es) {
      int64_t take = avail / c.es * c.es;
      AV v = c.v;
      if (take != c.es || c.len != c.es) v.sym = 0;
      ps.push_back({o - soff, (int)take, c.es, v});
      o += take;
    } else {
      unsigned inel = rel % c.es;
      int64_t take = std::min<int64_t>(c.es - inel, end - o);
      for (int64_t b = 0; b < take; b++) ps.push_back({o - soff + b, 1, 1, subElem(c, inel + b, 1)});
      o += take;
    }
  }
  for (auto &q : ps) {
    int64_t d = doff + q.off;
    int done = 0;
    while (done < q.len) {
      int64_t pi = (d + done) / PG;
      int po = (d + done) % PG;
      int room = PG - po;
      int k = std::min(q.len - done, room);
      if (k >= q.es) k = k / q.es * q.es;
      if (weak) {
        if (k < q.es) { // element straddles a page
          weakWrite(dst, d + done, q.es, q.v);
          done += q.es;
          continue;
        }
        for (int e = 0; e < k; e += q.es) weakWrite(dst, d + done + e, q.es, q.v);
        done += k;
      } else {
        if (k < q.es) {
          writeMem(dst, d + done, q.es, q.v);
          done += q.es;
          continue;
        }
        replaceRange(pageW(dst, pi), po, k, q.es, q.v);
        done += k;
      }
    }
  }
}

// Labels of a byte range; definite-ness survives when one byte is definite.
Labels labelsOf(const Obj *o, int64_t off, int64_t n) {
  Labels l = 0;
  bool def = false;
  if (o->summ) return o->pages[0]->cells[0].v.lab;
  int64_t end = off + n;
  while (off < end) {
    const Page *p = o->pages[off / PG];
    int po = off % PG;
    const Cell &c = p->cells[findCell(p, po)];
    l |= c.v.lab;
    if (defUninit(c.v.lab)) def = true;
    off += c.off + c.len - po;
  }
  if (def) l &= ~L_MAYINIT;
  return l;
}

void addLabels(Obj *o, int64_t off, int64_t n, Labels set, Labels clear) {
  if (o->summ) {
    Page *p = pageW(o, 0);
    p->cells[0].v.lab = (p->cells[0].v.lab & ~clear) | set;
    return;
  }
  while (n > 0) {
    int64_t pi = off / PG;
    int po = off % PG;
    int64_t k = std::min<int64_t>(n, PG - po);
    Page *p = pageW(o, pi);
    splitAt(p, po);
    splitAt(p, po + (int)k);
    for (auto &c : p->cells)
      if (c.off >= po && c.off < po + k) c.v.lab = (c.v.lab & ~clear) | set;
    off += k;
    n -= k;
  }
}

static bool cellsEq(const Cell &a, const Cell &b) {
  return a.off == b.off && a.len == b.len && a.es == b.es && a.v == b.v;
}

static bool joinPage(Page *&pa, const Page *pb, bool doWiden, Labels diffLab) {
  if (pa == pb) return false;
  if (pa->cells.size() == pb->cells.size()) {
    bool same = true;
    for (size_t i = 0; i < pa->cells.size() && same; i++) same = cellsEq(pa->cells[i], pb->cells[i]);
    if (same) return false;
  }
  // common refinement
  std::vector<Cell> out;
  bool changed = false;
  size_t i = 0, j = 0;
  int off = 0;
  const auto &A = pa->cells, &B = pb->cells;
  while (off < PG) {
    while (A[i].off + A[i].len <= off) i++;
    while (B[j].off + B[j].len <= off) j++;
    const Cell &a = A[i], &b = B[j];
    int end = std::min(a.off + a.len, b.off + b.len);
    unsigned ra = (off - a.off) % a.es, rb = (off - b.off) % b.es;
    if (a.es == b.es && ra == 0 && rb == 0 && (end - off) >= a.es && (end - off) % a.es == 0) {
      Cell c;
      c.off = off;
      c.len = end - off;
      c.es = a.es;
      AV x = a.v, y = b.v;
      if (c.len != a.len) x.sym = 0;
      if (c.len != b.len) y.sym = 0;
      AV r = join(x, y, a.es * 8);
      if (x != y) r.lab |= diffLab;
      if (doWiden) { Labels l = r.lab; r = widen(x, r, a.es * 8); r.lab |= l; }
      if (!(r == a.v)) changed = true;
      if (c.len != a.len || r != a.v) r.sym = 0;
      c.v = r;
      out.push_back(c);
      off = end;
    } else if ((a.es == 1 || b.es == 1) && ra == 0 && rb == 0 && (end - off) >= std::max(a.es, b.es)) {
      // a run of bytes against whole elements
      const Cell &big = a.es == 1 ? b : a, &run = a.es == 1 ? a : b;
      int n = (end - off) / big.es * big.es;
      u128 lo = 0, hi = 0, bl, bh;
      ubounds(run.v, 8, bl, bh);
      for (unsigned k = 0; k < big.es; k++) { lo |= bl << (8 * k); hi |= bh << (8 * k); }
      AV y = mk(lo, hi, run.v.lab, 1), x = big.v;
      x.sym = 0;
      if (a.es == 1) std::swap(x, y);
      AV r = join(x, y, big.es * 8);
      if (x != y) r.lab |= diffLab;
      if (doWiden) { Labels l = r.lab; r = widen(x, r, big.es * 8); r.lab |= l; }
      if (a.es == 1 || !(r == x)) changed = true;
      r.sym = 0;
      out.push_back(Cell{(uint16_t)off, (uint16_t)n, big.es, r});
      off += n;
    } else {
      // different layouts: go by byte
      unsigned na = a.es - ra, nb = b.es - rb;
      int n = std::min<int>({(int)std::max(na, nb), PG - off});
      // handle n bytes where n covers the larger element; byte-wise join
      for (int k = 0; k < n; k++, off++) {
        while (A[i].off + A[i].len <= off) i++;
        while (B[j].off + B[j].len <= off) j++;
        AV x = subElem(A[i], (off - A[i].off) % A[i].es, 1);
        AV y = subElem(B[j], (off - B[j].off) % B[j].es, 1);
        AV r = join(x, y, 8);
        if (x != y) r.lab |= diffLab;
        if (doWiden) { Labels l = r.lab; r = widen(x, r, 8); r.lab |= l; }
        if (!(r == x)) changed = true;
        if (A[i].es != 1) changed = true;
        r.sym = 0;
        Cell c;
        c.off = off;
        c.len = 1;
        c.es = 1;
        c.v = r;
        if (!out.empty() && out.back().es == 1 && out.back().v == r && out.back().off + out.back().len == off) out.back().len++;
        else out.push_back(c);
      }
    }
  }
  if (!changed) return false;
  Page *n = new Page;
  n->cells = std::move(out);
  pageUnref(pa);
  pa = n;
  return true;
}

static bool leqPage(const Page *pa, const Page *pb) {
  if (pa == pb) return true;
  size_t i = 0, j = 0;
  int off = 0;
  const auto &A = pa->cells, &B = pb->cells;
  while (off < PG) {
    while (A[i].off + A[i].len <= off) i++;
    while (B[j].off + B[j].len <= off) j++;
    const Cell &a = A[i], &b = B[j];
    int end = std::min(a.off + a.len, b.off + b.len);
    unsigned ra = (off - a.off) % a.es, rb = (off - b.off) % b.es;
    if (a.es == b.es && ra == 0 && rb == 0 && (end - off) >= a.es) {
      if (!leq(a.v, b.v, a.es * 8)) return false;
      off += (end - off) / a.es * a.es;
    } else if (a.es > 1 && b.es == 1 && b.v.obj == O_NONE && !(vnMode && b.v.sym) && isFull(b.v, 8) && a.v.obj == O_NONE) {
      if (a.v.lab & ~b.v.lab) return false;
      if (defUninit(b.v.lab) && !(a.v.lab & L_UNINIT)) return false;
      off++;
    } else {
      AV x = subElem(a, ra, 1), y = subElem(b, rb, 1);
      if (!leq(x, y, 8)) return false;
      if (b.es != 1) return false;
      off++;
    }
  }
  return true;
}

static const Obj *cowBase(const Mem &m, int id) { return lookup(m, id); }

bool joinObj(Obj *&a, const Obj *b, bool doWiden, Labels diffLab) {
  if (a == b) return false;
  bool ch = false;
  if (b->freed && !a->freed) { /* may be freed: keep live */ }
  if (a->size != b->size || a->summ != b->summ || a->pages.size() != b->pages.size()) {
    // incompatible: summarise
    Labels l = labelsOf(a, 0, a->summ ? 1 : (int64_t)a->pages.size() * PG) | labelsOf(b, 0, b->summ ? 1 : (int64_t)b->pages.size() * PG);
    Obj *n = newObj(-1, a->info, avTop(8, l | diffLab));
    n->size = std::max(a->size, b->size);
    n->weak = true;
    if (a->summ && a->pages[0]->cells[0].v == n->pages[0]->cells[0].v && a->size == n->size) { objUnref(n); return false; }
    objUnref(a);
    a = n;
    return true;
  }
  for (size_t i = 0; i < a->pages.size(); i++) {
    if (a->pages[i] == b->pages[i]) continue;
    if (leqPage(b->pages[i], a->pages[i]) ) {
      if (!diffLab) continue;
    }
    if (a->rc > 1) { Obj *n = cloneObj(a); a->rc--; a = n; }
    if (a->pages[i]->rc > 1) {
      Page *n = new Page;
      n->cells = a->pages[i]->cells;
      a->pages[i]->rc--;
      a->pages[i] = n;
    }
    if (joinPage(a->pages[i], b->pages[i], doWiden, diffLab)) ch = true;
  }
  return ch;
}

bool joinMem(Mem &a, const Mem &b, bool doWiden, Labels diffLab) {
  bool ch = false;
  a.imp |= b.imp;
  size_t n = std::min(a.stack.size(), b.stack.size());
  for (size_t i = 0; i < n; i++)
    if (a.stack[i] != b.stack[i]) ch |= joinObj(a.stack[i], b.stack[i], doWiden, diffLab);
  for (size_t i = n; i < b.stack.size(); i++) {
    b.stack[i]->rc++;
    a.stack.push_back(b.stack[i]);
    ch = true;
  }
  for (auto &kv : b.other) {
    auto it = a.other.find(kv.first);
    if (it == a.other.end()) {
      const Obj *base = kv.first < (int)initialGlobals.size() ? initialGlobals[kv.first] : nullptr;
      if (base) {
        Obj *c = cloneObj(base);
        ch |= joinObj(c, kv.second, doWiden, diffLab);
        a.other[kv.first] = c;
      } else {
        kv.second->rc++;
        a.other[kv.first] = kv.second;
        ch = true;
      }
    } else if (it->second != kv.second) ch |= joinObj(it->second, kv.second, doWiden, diffLab);
  }
  for (auto &kv : a.other)
    if (!b.other.count(kv.first) && kv.first < (int)initialGlobals.size() && initialGlobals[kv.first])
      ch |= joinObj(kv.second, initialGlobals[kv.first], doWiden, diffLab);
  return ch;
}

bool leqMem(const Mem &a, const Mem &b) {
  if (a.stack.size() > b.stack.size()) return false;
  for (size_t i = 0; i < a.stack.size(); i++) {
    const Obj *x = a.stack[i], *y = b.stack[i];
    if (x == y) continue;
    if (x->size != y->size || x->pages.size() != y->pages.size() || x->summ != y->summ) return false;
    for (size_t k = 0; k < x->pages.size(); k++)
      if (!leqPage(x->pages[k], y->pages[k])) return false;
  }
  for (auto &kv : a.other) {
    const Obj *x = kv.second, *y = cowBase(b, kv.first);
    if (x == y) continue;
    if (!y) return false;
    if (x->size != y->size || x->pages.size() != y->pages.size() || x->summ != y->summ) return false;
    for (size_t k = 0; k < x->pages.size(); k++)
      if (!leqPage(x->pages[k], y->pages[k])) return false;
  }
  for (auto &kv : b.other)
    if (!a.other.count(kv.first)) {
      const Obj *x = cowBase(a, kv.first), *y = kv.second;
      if (!x || x == y) continue;
      if (x->size != y->size || x->pages.size() != y->pages.size() || x->summ != y->summ) return false;
      for (size_t k = 0; k < x->pages.size(); k++)
        if (!leqPage(x->pages[k], y->pages[k])) return false;
    }
  return true;
}
