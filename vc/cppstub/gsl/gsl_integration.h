// Stand-in for the part of GSL that is used: adaptive quadrature, replaceable at run time.
#pragma once
#include <cmath>
#include <cstddef>
extern "C" {
typedef struct { double (*function)(double x, void *params); void *params; } gsl_function;
typedef struct { std::size_t limit; std::size_t size; } gsl_integration_workspace;
enum { GSL_INTEG_GAUSS15 = 1, GSL_INTEG_GAUSS21 = 2, GSL_INTEG_GAUSS31 = 3, GSL_INTEG_GAUSS41 = 4, GSL_INTEG_GAUSS51 = 5, GSL_INTEG_GAUSS61 = 6 };
typedef void gsl_error_handler_t(const char *, const char *, int, int);
gsl_integration_workspace *gsl_integration_workspace_alloc(std::size_t n);
void gsl_integration_workspace_free(gsl_integration_workspace *w);
gsl_error_handler_t *gsl_set_error_handler_off();
const char *gsl_strerror(const int e);
int gsl_integration_qag(const gsl_function *f, double a, double b, double epsabs, double epsrel, std::size_t limit, int key,
                        gsl_integration_workspace *w, double *result, double *abserr);
}
