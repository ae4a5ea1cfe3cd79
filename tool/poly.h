// Polynomial equalities: every tracked machine word is congruent, modulo two to
// its width, to an integer polynomial over named unknowns, with exact bounds.
// Shifts and masks introduce one named quotient each, so that carries cancel
// when a multi-word number is put together again.
#pragma once
#include "mem.h"
#include <string>
#include <vector>

extern bool polyMode;

uint32_t pvConst(u128 v);
uint32_t pvVar(u128 lo, u128 hi);
uint32_t pvOf(const AV &a, unsigned w);
uint32_t pvBin(int op, uint32_t a, uint32_t b, unsigned w);
uint32_t pvCmp(int pred, uint32_t a, uint32_t b, unsigned w);
uint32_t pvSelect(uint32_t c, uint32_t a, uint32_t b, unsigned w);
uint32_t pvZext(uint32_t a, unsigned from);
uint32_t pvSext(uint32_t a, unsigned from);
uint32_t pvSlice(uint32_t a, unsigned pos, unsigned n); // bytes
uint32_t pvCat(const uint32_t *bytes, unsigned n);
uint32_t pvShlAdd(uint32_t acc, uint32_t a, unsigned shift, unsigned w); // acc + U(a) * 2^shift
uint32_t pvArith(int op, uint32_t a, uint32_t b);
uint32_t pvBytes(const std::vector<unsigned char> &be);
bool pvIsZeroMod(uint32_t a, uint32_t m, std::string &why); // m: constant, or 0 for exact
bool pvBelow(uint32_t a, uint32_t m, std::string &why);
bool pvBounds(uint32_t a, unsigned w, u128 &lo, u128 &hi);
uint32_t pvQuot(uint32_t a, unsigned k, unsigned w); // floor by 2^k
uint32_t pvWord(uint32_t a, unsigned k, unsigned w);
void pvDeclare(uint32_t a, uint32_t lo, uint32_t hi);
std::string pvShow(uint32_t a);
size_t pvTerms(uint32_t a);
