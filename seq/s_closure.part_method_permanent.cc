#include "closure.h"
CASES(method_permanent, METHOD, true)
// vbuild fallback: -DONE_KIND_OF_PARAMETER
