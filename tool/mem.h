// Abstract memory: objects made of copy-on-write pages of cells.
#pragma once
#include "domain.h"
#include <cassert>
#include <string>
#include <vector>
#include <map>

static const int PG = 256;

struct Cell {
  uint16_t off, len; // byte range inside the page
  uint8_t es;        // element size; every element of the run is in v
  AV v;
};

struct Page {
  int rc = 1;
  std::vector<Cell> cells;
};

enum ObjKind { OK_STACK, OK_HEAP, OK_GLOBAL, OK_FUNC };

struct ObjInfo { // immutable description
  std::string name;
  const void *origin = nullptr; // llvm::Value
  const void *fn = nullptr;     // FnCode owning it (stack) or function target
  ObjKind kind = OK_GLOBAL;
  bool isConstant = false;
  bool isTLS = false;
};

struct Obj {
  int rc = 1;
  int64_t size = 0;
  const ObjInfo *info = nullptr;
  bool weak = false;  // summary of several concrete objects
  bool freed = false;
  bool summ = false;  // unbounded: contents summarised by pages[0]'s single cell
  std::vector<Page *> pages;
};

Page *pageRef(Page *p);
void pageUnref(Page *p);
void objUnref(Obj *o);

struct Mem {
  std::vector<Obj *> stack;
  std::map<int, Obj *> other; // heap objects and written globals
  bool imp = false; // passed through a loop whose iterations were merged
  Mem() {}
  Mem(const Mem &o);
  Mem(Mem &&o) noexcept : stack(std::move(o.stack)), other(std::move(o.other)), imp(o.imp) { o.stack.clear(); o.other.clear(); }
  Mem &operator=(Mem &&o) noexcept {
    if (this != &o) {
      clear();
      stack = std::move(o.stack); other = std::move(o.other); imp = o.imp;
      o.stack.clear(); o.other.clear();
    }
    return *this;
  }
  Mem &operator=(const Mem &o) { if (this != &o) { Mem t(o); *this = std::move(t); } return *this; }
  ~Mem() { clear(); }
  void clear();
};

static const int ID_HEAP = 1000000;
static const int ID_STACK = 100000000;

Obj *newObj(int64_t size, const ObjInfo *info, const AV &byte);
extern std::vector<Obj *> initialGlobals; // index = object id

const Obj *lookup(const Mem &m, int id);
Obj *lookupW(Mem &m, int id);

AV readMem(const Obj *o, int64_t off, unsigned size);
void writeMem(Obj *o, int64_t off, unsigned size, const AV &v);
void weakWrite(Obj *o, int64_t off, unsigned size, const AV &v);
// fill [off, off+n) with byte value v
void fillMem(Obj *o, int64_t off, int64_t n, const AV &v, bool weak);
void copyMem(Obj *dst, int64_t doff, const Obj *src, int64_t soff, int64_t n, bool weak);
// all labels in a byte range
Labels labelsOf(const Obj *o, int64_t off, int64_t n);
void addLabels(Obj *o, int64_t off, int64_t n, Labels set, Labels clear);

bool joinObj(Obj *&a, const Obj *b, bool doWiden, Labels diffLab); // returns true if a changed
bool joinMem(Mem &a, const Mem &b, bool doWiden, Labels diffLab);
bool leqMem(const Mem &a, const Mem &b);
