// stand-in: demos use concrete values only
#pragma once
#include <cstdio>
static int demo_bad = 0;
#define EXPECT(c) do { if( !(c) ) { demo_bad++; printf("FAILED: %s (line %d)\n", #c, __LINE__); } } while( 0 )
#define EXPECTEQ(a, b) do { double a_ = (a), b_ = (b), d_ = a_ - b_; if( !((d_ < 0 ? -d_ : d_) <= 1e-9 * (1. + (b_ < 0 ? -b_ : b_))) ) { demo_bad++; printf("FAILED: %s = %.12g, expected %.12g (line %d)\n", #a, a_, b_, __LINE__); } } while( 0 )
static inline double symd(const char*) { return 0.; }
static inline double symd(const char*, double lo, double) { return lo; }
