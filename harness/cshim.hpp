#pragma once
extern "C" { long shim_setup(char, long, long, long); long shim_cleanup(char);
long shim_init(char, const double*, const double*, const double*, const double*, const double*, const double*, const double*, long*, double*, const void*, double*, double*, double*, long*);
long shim_hot(char, const double*, const double*, const double*, const double*, const double*, const double*, const double*, long*, double*, double*, double*, double*, long*);
long shim_out(double*, double*, double*, long*); void* shim_opt(void); long shim_opt_init(void*, long); long shim_opt_copy(const void*, void*); int shim_opt_set(void*, const char*, double); double shim_opt_get(const void*, const char*); long shim_const(const char*); }
