// Arithmetic in a prime field over named unknowns: Laurent polynomials modulo a
// prime, kept in normal form modulo the rewriting rules the harness states, so
// that two values are the same handle exactly when they are the same polynomial.
#pragma once
#include <cstdint>
#include <string>
#include <vector>

uint32_t rgNew(const std::vector<unsigned char> &be);
uint32_t rgVar(uint32_t ring);
uint32_t rgNum(uint32_t ring, const std::vector<unsigned char> &be);
uint32_t rgOp(int op, uint32_t a, uint32_t b); // + - * / (b = 0: inverse) ^ (power b) s (square-free part)
void rgRule(uint32_t lhs, uint32_t rhs);       // lhs: a single product
std::string rgShow(uint32_t a);
int rgNumVal(uint32_t a); // small constant, -1 otherwise
