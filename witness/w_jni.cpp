// cflags: -femit-all-decls
// every inline convenience wrapper of jni.h is emitted into the analysed program
#include <jni.h>
