#include "closure.h"
CASES(method_once, METHOD, false)
// vbuild fallback: -DONE_KIND_OF_PARAMETER
