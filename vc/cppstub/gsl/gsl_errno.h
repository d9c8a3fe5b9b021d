#include <gsl/gsl_integration.h>
