// Value numbering: hash-consed terms over named unknowns. Two abstract values
// with the same term are equal for every input. Bitwise operations are kept
// per byte (xor as a cancelling set), sums as linear forms, everything else is
// uninterpreted.
#pragma once
#include "mem.h"
#include <set>

uint32_t vnVar(u128 lo, u128 hi, unsigned w);
uint32_t vnConst(u128 v, unsigned w);
uint32_t vnOf(const AV &a, unsigned w); // 0: not tracked
uint32_t vnBin(int op, const AV &a, const AV &b, unsigned w);
uint32_t vnZext(const AV &a, unsigned from, unsigned to);
uint32_t vnSext(const AV &a, unsigned from, unsigned to);
uint32_t vnTrunc(const AV &a, unsigned from, unsigned to);
uint32_t vnBswap(const AV &a, unsigned w);
uint32_t vnOp(int op, unsigned w, uint32_t a, uint32_t b, uint32_t c);
uint32_t vnSlice(uint32_t id, unsigned pos, unsigned n); // bytes
uint32_t vnCatBytes(const uint32_t *bytes, unsigned n);
uint32_t vnCat(const uint32_t *units, unsigned n);
extern unsigned vnUnit, vnXorCap;
uint32_t vnAdd(uint32_t a, uint32_t b, unsigned w);
uint32_t vnScale(uint32_t a, uint64_t k, unsigned w);
uint32_t vnLoad(const Obj *o, int64_t lo, int64_t hi, uint32_t off, unsigned n);
void vnUF(const std::string &name, const std::vector<uint32_t> &in, unsigned n, std::vector<uint32_t> &out);
// tighten a value by what its term says
bool vnDiffer(uint32_t a, uint32_t b, unsigned w); // provably unequal
void vnRefine(AV &r, unsigned w);
std::string vnShow(uint32_t id, int depth = 4);
size_t vnCount();
void vnReach(uint32_t root, std::set<uint32_t> &seen); // the terms a term is built from
bool vnIsConst(uint32_t id);
