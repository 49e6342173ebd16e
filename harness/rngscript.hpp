// A gsl generator whose outputs are enumerated: a script of choices, then a fixed continuation.
#ifndef RNGSCRIPT_HPP
#define RNGSCRIPT_HPP
#include <gsl/gsl_rng.h>
#include <vector>
static std::vector<double> rs_script; static size_t rs_used=0; static unsigned long rs_state=1;
static const unsigned long RS_MAX=0xffffffffUL;
static unsigned long rs_get(void*){ double x; if(rs_used<rs_script.size()) x=rs_script[rs_used]; else { rs_state=rs_state*6364136223846793005UL+1442695040888963407UL; x=((rs_state>>11)&0xffffffffUL)/4294967296.0; } rs_used++; unsigned long v=(unsigned long)(x*4294967296.0); return v>RS_MAX?RS_MAX:v; }
static double rs_getd(void*s){ return rs_get(s)/4294967296.0; }
static void rs_set(void*,unsigned long s){ rs_state=s*2+1; }
static const gsl_rng_type rs_type={"scripted",RS_MAX,0,8,rs_set,rs_get,rs_getd};
static gsl_rng*rs_new(const std::vector<double>&script,unsigned long cont){ gsl_rng*r=gsl_rng_alloc(&rs_type); rs_script=script; rs_used=0; rs_state=cont*2+1; return r; }
#endif
