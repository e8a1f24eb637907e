#ifndef PML_H
#define PML_H
#include <flint/flint.h>
#define PML_ASSERT(x)
#endif
