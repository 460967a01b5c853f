// the type traits of every primitive type, one function per question
#include <jnivm.h>
using namespace jnivm;
namespace witness {
template<class T> struct tag {};
std::string tsig_Z(ENV* e) { return JNITypes<jboolean>::GetJNISignature(e); }
jboolean tcast_Z(ENV* e, const jvalue& v) { return JNITypes<jboolean>::JNICast(e, v); }
jboolean tto_Z(ENV* e, jboolean v) { return JNITypes<jboolean>::ToJNIType(e, v); }
jboolean tret_Z(ENV* e, jboolean v) { return JNITypes<jboolean>::ToJNIReturnType(e, v); }
void tarr_Z(tag<JNITypes<jboolean>::Array>) {}
std::string tsig_B(ENV* e) { return JNITypes<jbyte>::GetJNISignature(e); }
jbyte tcast_B(ENV* e, const jvalue& v) { return JNITypes<jbyte>::JNICast(e, v); }
jbyte tto_B(ENV* e, jbyte v) { return JNITypes<jbyte>::ToJNIType(e, v); }
jbyte tret_B(ENV* e, jbyte v) { return JNITypes<jbyte>::ToJNIReturnType(e, v); }
void tarr_B(tag<JNITypes<jbyte>::Array>) {}
std::string tsig_S(ENV* e) { return JNITypes<jshort>::GetJNISignature(e); }
jshort tcast_S(ENV* e, const jvalue& v) { return JNITypes<jshort>::JNICast(e, v); }
jshort tto_S(ENV* e, jshort v) { return JNITypes<jshort>::ToJNIType(e, v); }
jshort tret_S(ENV* e, jshort v) { return JNITypes<jshort>::ToJNIReturnType(e, v); }
void tarr_S(tag<JNITypes<jshort>::Array>) {}
std::string tsig_C(ENV* e) { return JNITypes<jchar>::GetJNISignature(e); }
jchar tcast_C(ENV* e, const jvalue& v) { return JNITypes<jchar>::JNICast(e, v); }
jchar tto_C(ENV* e, jchar v) { return JNITypes<jchar>::ToJNIType(e, v); }
jchar tret_C(ENV* e, jchar v) { return JNITypes<jchar>::ToJNIReturnType(e, v); }
void tarr_C(tag<JNITypes<jchar>::Array>) {}
std::string tsig_I(ENV* e) { return JNITypes<jint>::GetJNISignature(e); }
jint tcast_I(ENV* e, const jvalue& v) { return JNITypes<jint>::JNICast(e, v); }
jint tto_I(ENV* e, jint v) { return JNITypes<jint>::ToJNIType(e, v); }
jint tret_I(ENV* e, jint v) { return JNITypes<jint>::ToJNIReturnType(e, v); }
void tarr_I(tag<JNITypes<jint>::Array>) {}
std::string tsig_J(ENV* e) { return JNITypes<jlong>::GetJNISignature(e); }
jlong tcast_J(ENV* e, const jvalue& v) { return JNITypes<jlong>::JNICast(e, v); }
jlong tto_J(ENV* e, jlong v) { return JNITypes<jlong>::ToJNIType(e, v); }
jlong tret_J(ENV* e, jlong v) { return JNITypes<jlong>::ToJNIReturnType(e, v); }
void tarr_J(tag<JNITypes<jlong>::Array>) {}
std::string tsig_F(ENV* e) { return JNITypes<jfloat>::GetJNISignature(e); }
jfloat tcast_F(ENV* e, const jvalue& v) { return JNITypes<jfloat>::JNICast(e, v); }
jfloat tto_F(ENV* e, jfloat v) { return JNITypes<jfloat>::ToJNIType(e, v); }
jfloat tret_F(ENV* e, jfloat v) { return JNITypes<jfloat>::ToJNIReturnType(e, v); }
void tarr_F(tag<JNITypes<jfloat>::Array>) {}
std::string tsig_D(ENV* e) { return JNITypes<jdouble>::GetJNISignature(e); }
jdouble tcast_D(ENV* e, const jvalue& v) { return JNITypes<jdouble>::JNICast(e, v); }
jdouble tto_D(ENV* e, jdouble v) { return JNITypes<jdouble>::ToJNIType(e, v); }
jdouble tret_D(ENV* e, jdouble v) { return JNITypes<jdouble>::ToJNIReturnType(e, v); }
void tarr_D(tag<JNITypes<jdouble>::Array>) {}
jobject tcast_L(ENV* e, const jvalue& v) { return JNITypes<jobject>::JNICast(e, v); }
jobject tto_L(ENV* e, jobject v) { return JNITypes<jobject>::ToJNIType(e, v); }
jobject tret_L(ENV* e, jobject v) { return JNITypes<jobject>::ToJNIReturnType(e, v); }
void tarr_L(tag<JNITypes<jobject>::Array>) {}
std::string tsig_V(ENV* e) { return JNITypes<void>::GetJNISignature(e); }
std::string asig_Z(ENV* e) { return JNITypes<Array<jboolean>>::GetJNISignature(e); }
std::string asig_B(ENV* e) { return JNITypes<Array<jbyte>>::GetJNISignature(e); }
std::string asig_S(ENV* e) { return JNITypes<Array<jshort>>::GetJNISignature(e); }
std::string asig_C(ENV* e) { return JNITypes<Array<jchar>>::GetJNISignature(e); }
std::string asig_I(ENV* e) { return JNITypes<Array<jint>>::GetJNISignature(e); }
std::string asig_J(ENV* e) { return JNITypes<Array<jlong>>::GetJNISignature(e); }
std::string asig_F(ENV* e) { return JNITypes<Array<jfloat>>::GetJNISignature(e); }
std::string asig_D(ENV* e) { return JNITypes<Array<jdouble>>::GetJNISignature(e); }
}
