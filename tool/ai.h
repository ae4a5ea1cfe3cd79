#pragma once
#include "mem.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <set>
#include <climits>

enum Op : uint8_t {
  OP_ADD, OP_SUB, OP_MUL, OP_AND, OP_OR, OP_XOR, OP_SHL, OP_LSHR, OP_ASHR,
  OP_UDIV, OP_UREM, OP_SDIV, OP_SREM, OP_ICMP, OP_SELECT, OP_ZEXT, OP_SEXT,
  OP_TRUNC, OP_GEP, OP_LOAD, OP_STORE, OP_ALLOCA, OP_CALL, OP_COPY, OP_PTRTOINT,
  OP_INTTOPTR, OP_EXTRACT, OP_INSERT, OP_FREEZE, OP_NOP,
  OP_BR, OP_CONDBR, OP_SWITCH, OP_RET, OP_UNREACHABLE, OP_FSH, OP_BSWAP, OP_CTPOP, OP_OVF
};

enum : uint8_t { F_NSW = 1, F_FIELD = 2, F_NUW = 4, F_SPLIT = 8 };

struct FnCode;

struct Ins {
  Op op;
  uint8_t flags = 0;
  uint8_t pred = 0;
  uint16_t w = 0;  // operand width
  uint16_t w2 = 0; // second width (casts)
  int dst = -1;
  int a = 0, b = 0, c = 0; // operands: >=0 env slot, <0 constant ~idx
  int64_t imm = 0;
  std::vector<std::pair<int, int64_t>> gep; // variable indices (operand, scale)
  std::vector<int> args;
  FnCode *callee = nullptr;
  int ext = -1; // external model id
  std::vector<std::pair<u128, int>> cases;
  std::vector<int> succ;
  const ObjInfo *info = nullptr;
  const llvm::Instruction *I = nullptr;
};

struct Phi {
  int dst;
  unsigned w;
  std::vector<int> in; // per predecessor index
};

struct Blk {
  std::vector<int> preds;
  std::vector<Phi> phis;
  std::vector<Ins> ins;
  std::vector<int> loops;   // enclosing loops outer->inner
  int rpo = 0;
  int headerOf = -1;        // loop id if header
  int ipdom = -1;           // -1: virtual exit
  int sel = -1;             // slot of a phi of constants that the terminator switches on
  bool light = false;       // no memory effect: eligible for run-ahead
};

struct LoopI {
  int header;
  int parent;
  std::vector<bool> has;
};

struct FnCode {
  const llvm::Function *F = nullptr;
  std::string name, file;
  int line = 0;
  int nslots = 0;
  std::vector<AV> consts;
  std::vector<unsigned> slotW;
  std::vector<std::pair<int, int>> slotDef; // slot -> (block, ins)
  std::vector<Blk> blks;
  std::vector<LoopI> loops;
  std::vector<int> liveWords;
  int objId = 0;
  bool translated = false;
  unsigned retW = 0;
  uint64_t visits = 0;
  bool field = false;
  bool hasXor = false;
  bool zeroScope = false;
  std::set<std::string> tmp;
};

struct Report {
  std::string kind, file, func, detail, stack, var;
  int line;
};

struct Options {
  bool ct = false, uninit = false, oob = false, wrap = false, zero = false, implicit = false;
  bool noclear = false;
  bool partition = false;
  int unk = 80;
  bool verbose = false;
  uint64_t maxSteps = 0;
  int secs = 0, grace = 10;
  std::set<std::string> stop;
};
extern Options opt;
