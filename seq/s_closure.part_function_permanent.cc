#include "closure.h"
CASES(function_permanent, FUNCTION, true)
// vbuild fallback: -DONE_KIND_OF_PARAMETER
