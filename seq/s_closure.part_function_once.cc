#include "closure.h"
CASES(function_once, FUNCTION, false)
// vbuild fallback: -DONE_KIND_OF_PARAMETER
