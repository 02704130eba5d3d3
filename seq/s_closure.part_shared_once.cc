#include "closure.h"
CASES(shared_once, SHARED, false)
// vbuild fallback: -DONE_KIND_OF_PARAMETER
