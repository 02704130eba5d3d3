// Closures (C21): every kind of closure with every number of bound and call-time arguments. The classes are generated
// code, one per combination, so every one of them is instantiated and run (s_closure.part_*.cc, closure.h).
#include "seq.h"
#include <stdarg.h>
using namespace seq;
void closure_fail(const char* sig, const char* fmt, ...) { char b[300]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); SEQ_CHECK(false, sig, "%s", b); }
void closure_function_once(bool plain, bool value, int mode, int p, int q);
void closure_function_permanent(bool plain, bool value, int mode, int p, int q);
void closure_method_once(bool plain, bool value, int mode, int p, int q);
void closure_method_permanent(bool plain, bool value, int mode, int p, int q);
void closure_shared_once(bool plain, bool value, int mode, int p, int q);
void closure_shared_permanent(bool plain, bool value, int mode, int p, int q);
typedef void (*Judge)(bool, bool, int, int, int);
static const Judge judges[3][2] = { { &closure_function_once, &closure_function_permanent }, { &closure_method_once, &closure_method_permanent }, { &closure_shared_once, &closure_shared_permanent } };
SEQ_CASE(ext) {
    int kind = pick(3, "target"), perm = pick(2, "permanent"), value = pick(2, "result"), mode = pick(2, "parameters"), p = pick(11, "bound"), q = pick(11, "call");
    obs("%d%d%d%d", kind, perm, value, mode); judges[kind][perm](false, value, mode, p, q);
}
SEQ_CASE(plain) {
    int kind = pick(3, "target"), perm = pick(2, "permanent"), mode = pick(2, "parameters"), p = pick(11, "bound");
    obs("%d%d%d", kind, perm, mode); judges[kind][perm](true, false, mode, p, 0);
}
SEQ_MAIN
