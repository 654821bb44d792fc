/* needs the other library: loads at once only if that was opened with its symbols made global */
#include <mlvalues.h>
extern value ffi_a1(value);
value two_plus(value a) { return ffi_a1(ffi_a1(a)); }
value two_self(value a) { return Val_long(Long_val(a) * 2); }
