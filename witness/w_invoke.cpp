// instantiates the C++ side invocation templates so that their bodies are analysed
#include <jnivm.h>
using namespace jnivm;
namespace witness {
jvalue invoke_class(Method* m, JNIEnv& env, Class* c, jint a, jdouble d) { return m->invoke(env, c, a, d); }
jvalue invoke_object(Method* m, JNIEnv& env, Object* o, std::shared_ptr<String> s, jlong j) { return m->invoke(env, o, s, j); }
jvalue invoke_noargs(Method* m, JNIEnv& env, Object* o) { return m->invoke(env, o); }
jvalue proxy_class(MethodProxy& p, JNIEnv& env, Class* c, jint a) { return p.invoke(env, c, a); }
jvalue proxy_object(MethodProxy& p, JNIEnv& env, Object* o, jint a) { return p.invoke(env, o, a); }
void copies(Object& a, Object& b) { Object c(a); Object d(std::move(b)); c = d; d = std::move(c); }
}
