// Conversions of C++ values to handles and of handles to raw pointers (C07).
#include <jnivm.h>
#include <fake-jni/fake-jni.h>
namespace witness {
struct Conv : jnivm::Extends<jnivm::Object> { int v; };
jobject conv_ptr(jnivm::ENV* e, Conv* const p) { return jnivm::JNITypes<Conv>::ToJNIType(e, p); }
jobject conv_ref(jnivm::ENV* e, Conv& p) { return jnivm::JNITypes<Conv>::ToJNIType(e, p); }
jobject conv_cref(jnivm::ENV* e, const Conv& p) { return jnivm::JNITypes<Conv>::ToJNIType(e, p); }
jobject conv_shared(jnivm::ENV* e, std::shared_ptr<Conv>& p) { return jnivm::JNITypes<std::shared_ptr<Conv>>::ToJNIType(e, p); }
jobject conv_cshared(jnivm::ENV* e, const std::shared_ptr<Conv>& p) { return jnivm::JNITypes<std::shared_ptr<Conv>>::ToJNIReturnType(e, p); }
jobject conv_rptr(jnivm::ENV* e, Conv* const p) { return jnivm::JNITypes<Conv*>::ToJNIReturnType(e, p); }
jobject conv_rval(jnivm::ENV* e, const Conv& p) { return jnivm::JNITypes<Conv>::ToJNIReturnType(e, p); }
jstring conv_sptr(jnivm::ENV* e, jnivm::String* const p) { return jnivm::JNITypes<jnivm::String>::ToJNIType(e, p); }
jclass conv_class(jnivm::ENV* e, std::shared_ptr<jnivm::Class> p) { return jnivm::JNITypes<jnivm::Class*>::ToJNIType(e, p); }
Conv* conv_back(jnivm::ENV* e, jobject o) { return jnivm::JNITypes<Conv*>::JNICast(e, o); }
jnivm::String* conv_sback(jnivm::ENV* e, jobject o) { return jnivm::JNITypes<jnivm::String*>::JNICast(e, o); }
jnivm::Class* conv_cback(jnivm::ENV* e, jobject o) { return jnivm::JNITypes<jnivm::Class*>::JNICast(e, o); }
jobject conv_local(FakeJni::Env& e, std::shared_ptr<FakeJni::JObject> o) { return e.createLocalReference(o); }
jobject conv_global(FakeJni::Jvm& vm, std::shared_ptr<FakeJni::JObject> o) { return vm.createGlobalReference(o); }
}
