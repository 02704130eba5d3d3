#include "closure.h"
CASES(shared_permanent, SHARED, true)
// vbuild fallback: -DONE_KIND_OF_PARAMETER
