// Common declarations for the specification harness.  The functions below are never executed: each nv::spec_X states what
// nv::impl_X (a thin wrapper over the repository's API) must compute; the flow engine compares the two summaries.
#pragma once
#include <nikfemm.hpp>
#include <map>
#include <unordered_map>
#include <cmath>
using namespace nikfemm;
typedef const std::vector<double> CV;
typedef std::vector<double> VV;
namespace nv {
void assume(bool c);                               // restricts the analysed inputs
void size(int n, const void* vec, int elemsize);   // "the vector has N_n elements"
void sizeis(const void* vec, unsigned long n, int elemsize);   // "the vector has n elements"
double num(int k);                                 // an arbitrary number
}
