import sys
from dev.mutants import M as _M
def mut(n): return [x['edits'] for x in _M if x['name'] == n][0]
S = []
VM = 'src/jnivm/vm.cpp'; BJ = 'src/baron/jvm.cpp'
PRE = r'''#include <jnivm.h>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <memory>
#include <vector>
#include <thread>
#include <stdexcept>
using namespace jnivm;
#define REQ(x) do { if(!(x)) { printf("FAILED line %d: %s\n", __LINE__, #x); fflush(stdout); _Exit(1); } } while(0)
'''
def seed(id, prop, needs, breaks, edits, demo, **k):
    S.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=PRE + demo, **k))

seed('c06-result-into-dying-frame', 'C06', 'PopLocalFrame of a nested frame whose result is only referenced from that frame',
 'the result of PopLocalFrame is registered in the frame that is dropped, so the returned reference dangles',
 [(VM, '	// Clear current Frame and move to freelist\n', '	// Keep the result referenced\n	if(res) JNITypes<std::shared_ptr<Object>>::ToJNIType(&nenv, res);\n	// Clear current Frame and move to freelist\n'),
  (VM, '	if(res) {\n		return JNITypes<std::shared_ptr<Object>>::ToJNIType(&nenv, res);\n	}\n#endif\n	return result;', '	if(res) {\n		return (jobject)res.get();\n	}\n#endif\n	return result;')],
 r'''
struct Probe : Extends<Object> { bool* d; Probe(bool* d) : d(d) {} ~Probe() { *d = true; } };
int main() {
  VM vm; auto env = vm.GetEnv(); auto e = env->GetJNIEnv(); env->GetClass<Probe>("Probe");
  bool dead = false; e->PushLocalFrame(4);
  jobject o = JNITypes<std::shared_ptr<Probe>>::ToJNIType(env.get(), std::make_shared<Probe>(&dead));
  jobject r = e->PopLocalFrame(o);
  REQ(r); REQ(!dead);
  return 0;
}
''')
seed('c06-pop-keeps-references', 'C06', 'popping a nested frame that holds references while at least two frames remain and pushing again',
 'references of a popped frame stay alive because the frame is moved to the spare list without being cleared',
 [(VM, 'nenv.localframe.front().clear();', 'if(nenv.freeframes.empty()) nenv.localframe.front().clear();')],
 r'''
struct Probe : Extends<Object> { int* d; Probe(int* d) : d(d) {} ~Probe() { ++*d; } };
int main() {
  VM vm; auto env = vm.GetEnv(); auto e = env->GetJNIEnv(); env->GetClass<Probe>("Probe");
  int dead = 0; e->PushLocalFrame(4); e->PushLocalFrame(4);
  JNITypes<std::shared_ptr<Probe>>::ToJNIType(env.get(), std::make_shared<Probe>(&dead));
  e->PopLocalFrame(nullptr); REQ(dead == 1);
  JNITypes<std::shared_ptr<Probe>>::ToJNIType(env.get(), std::make_shared<Probe>(&dead));
  e->PopLocalFrame(nullptr); REQ(dead == 2);
  return 0;
}
''')
seed('c08-delete-erases-tail', 'C08', 'two global references created, the older one deleted, the newer one still used',
 'DeleteGlobalRef removes every reference created after the given one',
 [(VM, '		nvm.globals.erase(f);', '		nvm.globals.erase(f, fe);')],
 r'''
struct Probe : Extends<Object> { bool* d; Probe(bool* d) : d(d) {} ~Probe() { *d = true; } };
int main() {
  VM vm; auto env = vm.GetEnv(); auto e = env->GetJNIEnv(); env->GetClass<Probe>("Probe");
  bool d1 = false, d2 = false; e->PushLocalFrame(4);
  auto g1 = e->NewGlobalRef(JNITypes<std::shared_ptr<Probe>>::ToJNIType(env.get(), std::make_shared<Probe>(&d1)));
  auto g2 = e->NewGlobalRef(JNITypes<std::shared_ptr<Probe>>::ToJNIType(env.get(), std::make_shared<Probe>(&d2)));
  e->PopLocalFrame(nullptr); REQ(!d1 && !d2);
  e->DeleteGlobalRef(g1); REQ(d1); REQ(!d2);
  e->DeleteGlobalRef(g2); REQ(d2);
  return 0;
}
''')
seed('c19-exit-skips-classes', 'C19', 'MonitorExit on a class object (static synchronized)',
 'MonitorExit on a class object reports success without releasing its monitor',
 [(VM, "	JNITypes<std::shared_ptr<jnivm::Object>>::JNICast(ENV::FromJNIEnv(env), o)->lock.lock.unlock();\n", "	auto ob = JNITypes<std::shared_ptr<jnivm::Object>>::JNICast(ENV::FromJNIEnv(env), o);\n	if(dynamic_cast<jnivm::Class*>(ob.get())) return 0;\n	ob->lock.lock.unlock();\n")],
 r'''
int main() {
  VM vm; auto env = vm.GetEnv(); auto e = env->GetJNIEnv(); auto c = e->FindClass("a/B");
  REQ(e->MonitorEnter(c) == 0); REQ(e->MonitorExit(c) == 0);
  auto o = JNITypes<std::shared_ptr<Object>>::JNICast(env.get(), (jobject)c);
  bool free = false; std::thread t([&] { free = o->lock.lock.try_lock(); if(free) o->lock.lock.unlock(); }); t.join();
  REQ(free);
  return 0;
}
''')
seed('c24-describe-clears', 'C24', 'ExceptionDescribe of a pending exception that is not a std::exception followed by ExceptionCheck',
 'ExceptionDescribe drops the pending exception',
 [(VM, '''			LOG("JNIVM", "Exception with Message `%s` was thrown", ex.what());
		} catch (...) {
''', '''			LOG("JNIVM", "Exception with Message `%s` was thrown", ex.what());
		} catch (...) {
			// Not describable, drop it
			(ENV::FromJNIEnv(env))->current_exception = nullptr;
''')],
 r'''
int main() {
  VM vm; auto env = vm.GetEnv(); auto e = env->GetJNIEnv(); auto c = e->FindClass("a/B");
  env->GetClass("a/B")->Hook(env.get(), "f", [](ENV*, Class*) { throw 5; });
  e->CallStaticVoidMethod(c, e->GetStaticMethodID(c, "f", "()V")); REQ(e->ExceptionCheck());
  e->ExceptionDescribe(); REQ(e->ExceptionCheck()); REQ(e->ExceptionOccurred());
  e->ExceptionClear(); REQ(!e->ExceptionCheck());
  return 0;
}
''')
seed('c24-throw-keeps-first', 'C24', 'ThrowNew while another exception is pending',
 'the second exception raised does not replace the pending one',
 [(VM, '		(ENV::FromJNIEnv(env))->current_exception = th;', '		auto&& nenv = *ENV::FromJNIEnv(env);\n		if(!nenv.current_exception) nenv.current_exception = th;')],
 r'''
int main() {
  VM vm; auto env = vm.GetEnv(); auto e = env->GetJNIEnv(); auto c = e->FindClass("a/B");
  e->ThrowNew(c, "first"); auto a = e->ExceptionOccurred(); e->ThrowNew(c, "second"); auto b = e->ExceptionOccurred();
  REQ(b); REQ(!e->IsSameObject(a, b));
  return 0;
}
''')

BLOCK = r'''
// runs f in a thread; true when it finished within the time
template<class F> bool done_in(int ms, F f) {
  auto d = std::make_shared<std::atomic<bool>>(false);
  std::thread t([=] { f(); *d = true; }); t.detach();
  for(int i = 0; i < ms / 10 && !*d; i++) std::this_thread::sleep_for(std::chrono::milliseconds(10));
  return *d;
}
'''
INC = '#include <atomic>\n#include <chrono>\n#include <mutex>\n'
seed('c03-static-catches-std-only', 'C03', 'a static hook that throws something not derived from std::exception',
 'the exception of the hook escapes the CallStatic function', mut('static-catch-std-only'), r'''
int main() {
  VM vm; auto env = vm.GetEnv(); auto e = env->GetJNIEnv(); auto c = e->FindClass("a/B");
  env->GetClass("a/B")->Hook(env.get(), "f", [](ENV*, Class*) -> jint { throw 5; });
  auto id = e->GetStaticMethodID(c, "f", "()I"); jint r = 7;
  try { r = e->CallStaticIntMethod(c, id); } catch(...) { REQ(!"escaped"); }
  REQ(r == 0); REQ(e->ExceptionCheck());
  return 0;
}
''')
seed('c03-nonvirtual-keeps-older', 'C03', 'a hook called non-virtually throws while an older exception is still pending',
 'the older exception stays pending instead of the one just thrown', mut('nonvirtual-keeps-older'), r'''
struct Thing : Extends<Object> {};
int main() {
  VM vm; auto env = vm.GetEnv(); auto e = env->GetJNIEnv(); auto k = env->GetClass<Thing>("a/B"); auto c = e->FindClass("a/B");
  k->HookInstanceFunction(env.get(), "f", [](ENV*, Object* o) { throw std::runtime_error("first"); });
  k->HookInstanceFunction(env.get(), "g", [](ENV*, Object* o) { throw std::runtime_error("second"); });
  auto f = e->GetMethodID(c, "f", "()V"), g = e->GetMethodID(c, "g", "()V");
  auto o = JNITypes<std::shared_ptr<Thing>>::ToJNIType(env.get(), std::make_shared<Thing>());
  e->CallNonvirtualVoidMethod(o, c, f); REQ(env->current_exception);
  e->CallNonvirtualVoidMethod(o, c, g); REQ(env->current_exception);
  try { std::rethrow_exception(env->current_exception->except); } catch(const std::exception& x) { REQ(std::string(x.what()) == "second"); }
  return 0;
}
''')
seed('c04-deleteref-keeps-lock', 'C04', 'DeleteGlobalRef of a reference that is no longer in the table, then any call that needs the VM lock',
 'the VM lock stays taken, the next call blocks forever', mut('manual-lock-early-return'), INC + r'''
int main() {
  VM vm; auto env = vm.GetEnv(); auto e = env->GetJNIEnv(); auto c = e->FindClass("a/B");
  auto g = e->NewGlobalRef(c); auto keep = JNITypes<std::shared_ptr<Object>>::JNICast(env.get(), g);
  std::shared_ptr<Object> own(((Object*)g)->shared_from_this());
  e->DeleteGlobalRef(g); e->DeleteGlobalRef(g);
  REQ(vm.mtx.try_lock()); vm.mtx.unlock();
  return 0;
}
''')
seed('c04-attach-relocks', 'C04', 'attaching the ninth thread of a VM',
 'AttachCurrentThread calls GetClass-like code needing the VM lock it already holds', [(VM, "				if(!nenv) {\n					nenv = nvm.CreateEnv();\n				}\n				if(penv) {", "				if(!nenv) {\n					nenv = nvm.CreateEnv();\n					if(nvm.jnienvs.size() > 8) nenv->GetJNIEnv()->FindClass(\"java/lang/Thread\");\n				}\n				if(penv) {")], INC + BLOCK + r'''
int main() {
  static VM vm; JavaVM* j = vm.GetJavaVM();
  static std::atomic<bool> go{false};
  for(int i = 0; i < 10; i++) REQ(!done_in(100, [=] { JNIEnv* e = nullptr; j->AttachCurrentThread(&e, nullptr); while(!go) std::this_thread::sleep_for(std::chrono::milliseconds(5)); }));
  REQ(vm.mtx.try_lock());
  _Exit(0);
}
''')
seed('c05-overload-scan-unlocked', 'C05', 'a virtual call while another thread adds methods to the class of the object',
 'the method table is searched without holding the lock of the class', mut('nvoverload-unlocked'), INC + BLOCK + r'''
struct Thing : Extends<Object> {};
int main() {
  static VM vm; auto env = vm.GetEnv(); auto e = env->GetJNIEnv(); auto k = env->GetClass<Thing>("a/B"); auto c = e->FindClass("a/B");
  k->HookInstanceFunction(env.get(), "f", [](ENV*, Object* o) -> jint { return 4; });
  auto f = e->GetMethodID(c, "f", "()I");
  auto g = e->NewGlobalRef(JNITypes<std::shared_ptr<Thing>>::ToJNIType(env.get(), std::make_shared<Thing>()));
  REQ(e->CallIntMethod(g, f) == 4);
  JavaVM* j = vm.GetJavaVM();
  k->mtx.lock();
  bool through = done_in(500, [=] { JNIEnv* e2; j->AttachCurrentThread(&e2, nullptr); e2->CallIntMethod(g, f); });
  REQ(!through);
  k->mtx.unlock();
  _Exit(0);
}
''')
seed('c05-delete-peeks-unlocked', 'C05', 'DeleteGlobalRef while another thread is changing the table of global references',
 'the table of global references is read without holding the VM lock', mut('newglobal-nolock-fastpath'), INC + BLOCK + r'''
int main() {
  static VM vm; auto env = vm.GetEnv(); auto e = env->GetJNIEnv(); auto c = e->FindClass("a/B"); JavaVM* j = vm.GetJavaVM();
  std::atomic<int> at{0};
  vm.globals.clear();
  auto own = std::make_shared<Global>();
  std::atomic<int>* a = &at; jobject g = (jobject)(Object*)own.get();
  std::thread t([=] { JNIEnv* e2; j->AttachCurrentThread(&e2, nullptr); *a = 1; while(*a != 2); e2->DeleteGlobalRef(g); *a = 3; }); t.detach();
  while(at != 1);
  vm.mtx.lock(); at = 2;
  std::this_thread::sleep_for(std::chrono::milliseconds(500));
  REQ(at == 2);
  vm.mtx.unlock();
  _Exit(0);
}
''')
seed('c09-array-handle-unchecked', 'C09', 'GetIntArrayRegion on a byte array',
 'the handle of a byte array is silently used as an int array', mut('array-unpack-void'), r'''
int main() {
  VM vm; auto env = vm.GetEnv(); auto e = env->GetJNIEnv();
  auto a = e->NewByteArray(16); jint buf[4] = {7,7,7,7}; bool threw = false;
  try { e->GetIntArrayRegion((jintArray)(jobject)a, 0, 2, buf); } catch(const std::exception&) { threw = true; }
  REQ(threw || e->ExceptionCheck());
  return 0;
}
''')
seed('c09-dead-weak-is-same', 'C09', 'IsSameObject of a weak reference whose object died and another live object',
 'a handle that resolves to null is compared by its wrapper kind instead of by the object it denotes', mut('issame-raw'), r'''
struct Thing : Extends<Object> {};
int main() {
  VM vm; auto env = vm.GetEnv(); auto e = env->GetJNIEnv(); env->GetClass<Thing>("a/B");
  e->PushLocalFrame(4);
  auto h = JNITypes<std::shared_ptr<Thing>>::ToJNIType(env.get(), std::make_shared<Thing>());
  auto w = e->NewWeakGlobalRef(h);
  e->PopLocalFrame(nullptr);
  auto o = JNITypes<std::shared_ptr<Thing>>::ToJNIType(env.get(), std::make_shared<Thing>());
  REQ(e->IsSameObject(w, nullptr)); REQ(!e->IsSameObject(w, o));
  return 0;
}
''')
seed('c01-nonvirtual-a-is-virtual', 'C01', 'CallNonvirtual<Type>MethodA through the C++ wrapper on an object whose class overrides the method',
 'the wrapper reaches the virtual entry', mut('wrapper-nonvirt-v'), r'''
struct Base : Extends<Object> {}; struct Sub : Extends<Base> {};
int main() {
  VM vm; auto env = vm.GetEnv(); auto e = env->GetJNIEnv(); auto b = env->GetClass<Base>("a/Base"); auto s = env->GetClass<Sub>("a/Sub");
  b->HookInstanceFunction(env.get(), "f", [](ENV*, Object* o) -> jint { return 1; });
  s->HookInstanceFunction(env.get(), "f", [](ENV*, Object* o) -> jint { return 2; });
  auto bc = e->FindClass("a/Base"); auto f = e->GetMethodID(bc, "f", "()I");
  auto o = JNITypes<std::shared_ptr<Sub>>::ToJNIType(env.get(), std::make_shared<Sub>());
  jvalue v[1] = {};
  REQ(e->CallIntMethodA(o, f, v) == 2); REQ(e->CallNonvirtualIntMethodA(o, bc, f, v) == 1);
  return 0;
}
''')
seed('c01-byte-field-normalised', 'C01', 'setting a byte field to a value other than 0 and 1',
 'one-byte field values are reduced to 0 or 1 before the setter runs', mut('set-field-constant'), r'''
jbyte got = 0;
int main() {
  VM vm; auto env = vm.GetEnv(); auto e = env->GetJNIEnv(); auto k = env->GetClass("a/B"); auto c = e->FindClass("a/B");
  k->HookSetterFunction(env.get(), "b", [](ENV*, Class*, jbyte v) { got = v; });
  auto f = e->GetStaticFieldID(c, "b", "B"); REQ(f);
  e->SetStaticByteField(c, f, 42); REQ(got == 42);
  return 0;
}
''')

# ---- C18
BPRE = '#include <baron/baron.h>\n'
seed('c18-first-filter-decides', 'C18', 'two field filters for the same name, the first examined one for another signature',
 'a filter of another signature ends the search, so the following filter of the same name is ignored',
 [(BJ, '''            if(sig && sig[0] != '\\0' && i->second.signature != "" && i->second.signature != sig) {
                continue;
            }
            if(!clazz || clazz[0] == '\\0' || i->second.classname.empty() || i->second.classname == clazz) {
                return true;
            }
        }
    }
    return false;
}

void Baron''', '''            if(sig && sig[0] != '\\0' && i->second.signature != "" && i->second.signature != sig) {
                break;
            }
            if(!clazz || clazz[0] == '\\0' || i->second.classname.empty() || i->second.classname == clazz) {
                return true;
            }
        }
    }
    return false;
}

void Baron''')],
 BPRE + r'''
int main() {
  Baron::Jvm jvm; 
  jvm.denyField("f", "I", ""); jvm.denyField("f", "J", ""); jvm.denyField("f", "Z", "");
  FakeJni::LocalFrame frame(jvm); JNIEnv* env = &frame.getJniEnv();
  jclass c = env->FindClass("a/B");
  REQ(!env->GetFieldID(c, "f", "I")); REQ(!env->GetFieldID(c, "f", "J")); REQ(!env->GetFieldID(c, "f", "Z"));
  REQ(env->GetFieldID(c, "f", "F"));
  return 0;
}
''')
seed('c18-static-twin-unfiltered', 'C18', 'a denied static method looked up on a class that has an instance method of that name and signature',
 'the static lookup of a filtering VM only consults the filters when the instance lookup finds nothing',
 [(BJ, '        if(!static_cast<Baron::Jvm*>(jnivm::ENV::FromJNIEnv(env)->GetVM())->isMethodDenied(n, s, cl ? cl->nativeprefix.data() : "")) {\n            return GetNativeInterfaceTemplate<false>().GetStaticMethodID', '        if(GetNativeInterfaceTemplate<true>().GetMethodID(env, c, n, s) || !static_cast<Baron::Jvm*>(jnivm::ENV::FromJNIEnv(env)->GetVM())->isMethodDenied(n, s, cl ? cl->nativeprefix.data() : "")) {\n            return GetNativeInterfaceTemplate<false>().GetStaticMethodID')],
 BPRE + r'''
int main() {
  Baron::Jvm jvm; FakeJni::LocalFrame frame(jvm); JNIEnv* env = &frame.getJniEnv();
  jclass c = env->FindClass("a/B"); REQ(env->GetMethodID(c, "m", "()V"));
  jvm.denyMethod("m", "()V", "a/B"); REQ(!env->GetStaticMethodID(c, "m", "()V"));
  REQ(env->GetMethodID(c, "m", "()V"));
  return 0;
}
''')
S[:] = [x for x in S if x['id'] != 'c05-overload-scan-unlocked']
FJI = '#include <fake-jni/fake-jni.h>\n'
THING = 'struct Thing : Extends<Object> {};\n'
seed('c12-host-lookup-creates', 'C12', 'a host asking for an array class that was never used',
 'FakeJni::Jvm::findClass creates array classes it is asked for', mut('host-find-creates'), FJI + r'''
int main() {
  FakeJni::Jvm jvm; FakeJni::LocalFrame f(jvm); auto n = jvm.getClasses().size();
  REQ(!jvm.findClass("no/Such")); REQ(!jvm.findClass("[Lno/Such;")); REQ(jvm.getClasses().size() == n);
  return 0;
}
''')
seed('c15-attach-replaces-environment', 'C15', 'a thread attaching a second time with attach arguments',
 'attaching an attached thread with arguments replaces its environment and drops its local references', mut('attach-always-creates'), r'''
int main() {
  VM vm; auto j = vm.GetJavaVM(); JNIEnv* e; REQ(j->AttachCurrentThread(&e, nullptr) == JNI_OK); auto keep = vm.GetEnv();
  JavaVMAttachArgs a = { JNI_VERSION_1_6, "x", nullptr }; JNIEnv* f; REQ(j->AttachCurrentThread(&f, &a) == JNI_OK);
  REQ(f == e); REQ(vm.GetEnv() == keep);
  return 0;
}
''')
LIBS = FJI + r'''
static std::vector<std::string> log_; static bool opens = true, hasload = true, hasunload = true;
static int tok;
static void* op(const char* n, int) { log_.push_back(std::string("open ") + (n ? n : "-")); return n && !opens ? nullptr : (void*)&tok; }
static void* sy(void* h, const char* n) { log_.push_back(std::string("sym ") + n); std::string s = n;
  if(s == "JNI_OnLoad" || s == "JNI_OnLoad_lib") return hasload ? (void*)(jint(*)(JavaVM*, void*))[](JavaVM*, void*) -> jint { log_.push_back("load"); return 0; } : nullptr;
  if(s == "JNI_OnUnload" || s == "JNI_OnUnload_lib") return hasunload ? (void*)(void(*)(JavaVM*, void*))[](JavaVM*, void*) { log_.push_back("unload"); } : nullptr;
  return nullptr; }
static int cl(void*) { log_.push_back("close"); return 0; }
static int count(const char* n) { int k = 0; for(auto&& x : log_) k += x == n; return k; }
'''
seed('c17-static-name-forgotten', 'C17', 'a statically linked library without a load hook but with an unload hook',
 'the unload hook looked up is the one of a loaded library', mut('lib-static-name-forgotten'), LIBS + r'''
int main() {
  FakeJni::Jvm jvm; FakeJni::LocalFrame f(jvm); opens = false; hasload = false;
  jvm.attachLibrary("lib", "", { op, sy, cl }); jvm.removeLibrary("lib");
  REQ(count("sym JNI_OnUnload_lib") == 1); REQ(count("unload") == 1); REQ(count("close") == 1);
  return 0;
}
''')
seed('c17-leaks-without-unload-hook', 'C17', 'removing a library that has no unload hook',
 'a library without unload hook is never closed', mut('lib-close-only-with-unload'), LIBS + r'''
int main() {
  FakeJni::Jvm jvm; FakeJni::LocalFrame f(jvm); hasunload = false;
  jvm.attachLibrary("lib", "", { op, sy, cl }); REQ(count("load") == 1); jvm.removeLibrary("lib"); REQ(count("close") == 1);
  return 0;
}
''')
seed('c20-unregister-drops-recorded', 'C20', 'UnregisterNatives on a class that has members recorded by lookups only',
 'UnregisterNatives also removes methods that were never registered natively', mut('unregister-drops-unhooked'), r'''
int main() {
  VM vm; auto env = vm.GetEnv(); auto e = env->GetJNIEnv(); auto k = env->GetClass("a/B"); auto c = JNITypes<std::shared_ptr<Class>>::ToJNIType(env.get(), k);
  auto m = std::make_shared<Method>(); m->name = "f"; m->signature = "()V"; m->_static = true; k->methods.push_back(m);
  JNINativeMethod n = { (char*)"g", (char*)"()V", (void*)+[](JNIEnv*, jclass) {} }; e->RegisterNatives(c, &n, 1); REQ(k->methods.size() == 2);
  e->UnregisterNatives(c); REQ(k->methods.size() == 1); REQ(k->methods[0] == m);
  return 0;
}
''')
seed('c21-override-by-length', 'C21', 'a derived class with two overloads whose signatures have the same length',
 'a virtual call dispatches to an overload with another parameter type', mut('overload-sig-length'), r'''
struct Base : Extends<Object> {}; struct Derived : Extends<Base> {};
int main() {
  VM vm; auto env = vm.GetEnv(); auto e = env->GetJNIEnv(); auto b = env->GetClass<Base>("a/Base"); auto d = env->GetClass<Derived>("a/Derived");
  b->HookInstanceFunction(env.get(), "f", [](ENV*, Object*, jint) -> jint { return 1; });
  d->HookInstanceFunction(env.get(), "f", [](ENV*, Object*, jfloat) -> jint { return 2; });
  d->HookInstanceFunction(env.get(), "f", [](ENV*, Object*, jint) -> jint { return 3; });
  auto id = e->GetMethodID(e->FindClass("a/Base"), "f", "(I)I"); jvalue v; v.i = 5;
  auto o = JNITypes<std::shared_ptr<Derived>>::ToJNIType(env.get(), std::make_shared<Derived>());
  REQ(e->CallIntMethodA(o, id, &v) == 3);
  return 0;
}
''')
seed('c22-set-field-of-null', 'C22', 'SetField with an id of null',
 'setting a field through a null id dereferences it', [('src/jnivm/internal/field.cpp', 'if (obj && fid && fid->setnativehandle) {', 'if (obj && ((uintptr_t)fid > 1 || fid->_static) && fid->setnativehandle) {')], THING + r'''
int main() {
  VM vm; auto env = vm.GetEnv(); auto e = env->GetJNIEnv(); env->GetClass<Thing>("a/B");
  auto o = JNITypes<std::shared_ptr<Thing>>::ToJNIType(env.get(), std::make_shared<Thing>());
  e->SetIntField(o, nullptr, 4); REQ(e->GetIntField(o, nullptr) == 0);
  return 0;
}
''')
seed('c22-call-native-only', 'C22', 'calling a method that is only registered natively',
 'calling a method without implementation for the host dereferences its missing handle', [('src/jnivm/internal/method.cpp', 'if (mid && mid->nativehandle) {\n        auto clz', 'if (mid && (mid->nativehandle || !mid->signature.compare(0, 2, "()"))) {\n        auto clz')], THING + r'''
int main() {
  VM vm; auto env = vm.GetEnv(); auto e = env->GetJNIEnv(); auto k = env->GetClass<Thing>("a/B"); auto c = e->FindClass("a/B");
  auto o = JNITypes<std::shared_ptr<Thing>>::ToJNIType(env.get(), std::make_shared<Thing>());
  auto id = e->GetMethodID(c, "f", "()I"); REQ(id); jvalue v{};
  REQ(e->CallNonvirtualIntMethodA(o, c, id, &v) == 0); REQ(e->CallIntMethodA(o, id, &v) == 0);
  return 0;
}
''')

seed('c11-inherited-not-consulted', 'C11', 'a fabricating VM, a class without own methods whose base class has the requested method',
 'a lookup on a class without own methods fabricates a method instead of returning the inherited one', mut('method-create-no-bases'), r"""
struct Base : Extends<Object> {}; struct Derived : Extends<Base> {};
int main() {
  VM vm; auto env = vm.GetEnv(); auto e = env->GetJNIEnv(); auto b = env->GetClass<Base>("a/Base"); env->GetClass<Derived>("a/Derived");
  b->HookInstanceFunction(env.get(), "f", [](ENV*, Object*, jint) -> jint { return 1; });
  auto id = e->GetMethodID(e->FindClass("a/Base"), "f", "(I)I"); REQ(id);
  REQ(e->GetMethodID(e->FindClass("a/Derived"), "f", "(I)I") == id);
  return 0;
}
""")
seed('c12-nested-lookup-creates', 'C12', 'a VM that reports unknown classes, asked for a class nested two levels deep',
 'the enclosing nested class of an unknown class is created', mut('lookup-creates-nested'), FJI + r"""
int main() {
  FakeJni::Jvm jvm; FakeJni::LocalFrame f(jvm); auto n = jvm.getClasses().size(); JNIEnv* e = &f.getJniEnv();
  auto k = ENV::FromJNIEnv(e); REQ(!e->FindClass("p/Q$R$S")); REQ(!e->FindClass("p/Q$R")); REQ(jvm.getClasses().size() == n);
  VM vm(false, true); auto env = vm.GetEnv(); auto q = env->GetClass("p/Q"); REQ(!env->GetJNIEnv()->FindClass("p/Q$R$S")); REQ(!env->GetJNIEnv()->FindClass("p/Q$R"));
#ifdef JNI_DEBUG
  REQ(q->classes.empty());
#endif
  return 0;
}
""")
OVR = r"""
struct E : ENV { using ENV::ENV; using ENV::OverrideJNINativeInterface; };
"""
seed('c16-override-forgets-owner', 'C16', 'overriding the functions of an environment with a table whose owner slot is empty',
 'after the override the environment can no longer be found from its table', mut('env-override-forgets-owner'), OVR + r"""
int main() {
  VM vm; auto env = vm.GetEnv(); JNINativeInterface t = *env->GetJNIEnv()->functions;
  t.reserved0 = nullptr;
  auto m = std::make_shared<E>(&vm, t); auto e = m->GetJNIEnv(); REQ(ENV::FromJNIEnv(e) == m.get());
  m->OverrideJNINativeInterface(t);
  REQ(e->functions->reserved0 == m.get()); REQ(ENV::FromJNIEnv(e) == m.get());
  return 0;
}
""")
seed('c16-hooks-after-environment', 'C16', 'a VM with table hooks',
 'the hooks of a VM are applied to a copy made after the environment took its table', mut('factory-hooks-after-env'), r"""
struct V : VM { using VM::CreateEnv; V() { jnienvhooks.push_back([](JNINativeInterface& i) { i.GetVersion = [](JNIEnv*) -> jint { return 42; }; }); } };
int main() {
  V vm; auto env = vm.CreateEnv(); REQ(env->GetJNIEnv()->GetVersion() == 42);
  std::thread([&] { JNIEnv* e; vm.GetJavaVM()->AttachCurrentThread(&e, nullptr); REQ(e->GetVersion() == 42); }).join();
  return 0;
}
""")
seed('c27-set-skips-zero', 'C27', 'storing zero or null into a pointer-sized field that has a getter',
 'storing a zero value into a field leaves its old value', [('src/jnivm/internal/field.cpp', 'if (obj && fid && fid->setnativehandle) {', 'if (obj && fid && fid->setnativehandle && (value || sizeof(value) < 8 || !fid->getnativehandle)) {')], r"""
struct Thing : Extends<Object> { jlong v = 5; };
int main() {
  VM vm; auto env = vm.GetEnv(); auto e = env->GetJNIEnv(); auto k = env->GetClass<Thing>("a/B"); auto c = e->FindClass("a/B");
  k->Hook(env.get(), "v", &Thing::v);
  auto t = std::make_shared<Thing>(); auto o = JNITypes<std::shared_ptr<Thing>>::ToJNIType(env.get(), t);
  auto f = e->GetFieldID(c, "v", "J"); e->SetLongField(o, f, 7); REQ(t->v == 7); e->SetLongField(o, f, 0); REQ(t->v == 0);
  return 0;
}
""")
seed('c27-fatal-returns', 'C27', 'FatalError without a message',
 'FatalError returns to its caller when the message is empty', mut('fatal-returns'), r"""
#include <unistd.h>
#include <sys/wait.h>
int main() {
  pid_t p = fork();
  if(!p) { VM vm; vm.GetEnv()->GetJNIEnv()->FatalError(""); _exit(0); }
  int st = 0; waitpid(p, &st, 0); REQ(WIFSIGNALED(st));
  return 0;
}
""")
seed('c28-superclass-of-abstract', 'C28', 'GetSuperclass of a class that cannot be default constructed',
 'GetSuperclass reports no superclass for a class without default constructor', mut('superclass-null-interface'), r"""
struct A : Extends<Object> {}; struct B : Extends<A> { B(int) {} };
int main() {
  VM vm; auto env = vm.GetEnv(); auto e = env->GetJNIEnv(); env->GetClass<A>("x/A"); env->GetClass<B>("x/B");
  REQ(e->IsSameObject(e->GetSuperclass(e->FindClass("x/B")), e->FindClass("x/A")));
  return 0;
}
""")
seed('c28-third-base-lost', 'C28', 'a class with three declared bases, one of which is only reached through the last',
 'the last of three or more declared bases is dropped', mut('bases-only-first'), r"""
struct I1 : Extends<Object> {}; struct I2 : Extends<Object> {}; struct I3 : Extends<Object> {}; struct C : Extends<I1, I2, I3> {};
int main() {
  VM vm; auto env = vm.GetEnv(); auto e = env->GetJNIEnv(); env->GetClass<I1>("x/I1"); env->GetClass<I2>("x/I2"); env->GetClass<I3>("x/I3"); env->GetClass<C>("x/C");
  REQ(e->IsAssignableFrom(e->FindClass("x/C"), e->FindClass("x/I3")));
  return 0;
}
""")

seed('c10-package-prefix', 'C10', 'two packages of which the name of one begins with the name of the other, the longer one seen first',
 'the namespace search accepts a namespace whose name only begins with the component, so classes of different packages share one class object', mut('cls-namespace-prefix'), r"""
int main() {
  VM vm; auto env = vm.GetEnv(); auto e = env->GetJNIEnv();
  jclass l = e->FindClass("network/C"); jclass s = e->FindClass("net/C");
  REQ(l && s && !e->IsSameObject(l, s));
  REQ(env->GetClass("net/C")->nativeprefix == "net/C"); REQ(env->GetClass("network/C")->nativeprefix == "network/C");
  return 0;
}
""")
seed('c10-nested-unrecorded', 'C10', 'a class nested two deep looked up before the class between',
 'a nested class created on the way to a deeper one is missing from the class table', mut('cls-nested-unrecorded'), r"""
int main() {
  VM vm; auto env = vm.GetEnv(); auto e = env->GetJNIEnv();
  jclass c = e->FindClass("p/A$B$C"); REQ(c);
  auto b = env->GetClass("p/A$B"); REQ(b);
  REQ(vm.classes.count("p/A") && vm.classes.count("p/A$B") && vm.classes.count("p/A$B$C"));
  REQ(vm.classes["p/A$B"] == b);
  return 0;
}
""")
seed('c10-array-of-array-class', 'C10', 'NewObjectArray whose element class is itself a two dimensional array class',
 'arrays of two dimensional arrays get a class with a wrong name', mut('cls-object-array-of-array'), r"""
int main() {
  VM vm; auto env = vm.GetEnv(); auto e = env->GetJNIEnv();
  REQ(e->IsSameObject(e->GetObjectClass(e->NewObjectArray(1, e->FindClass("x/T"), nullptr)), e->FindClass("[Lx/T;")));
  REQ(e->IsSameObject(e->GetObjectClass(e->NewObjectArray(1, e->FindClass("[I"), nullptr)), e->FindClass("[[I")));
  REQ(e->IsSameObject(e->GetObjectClass(e->NewObjectArray(1, e->FindClass("[[I"), nullptr)), e->FindClass("[[[I")));
  return 0;
}
""")
seed('c10-type-first-name-wins', 'C10', 'registering one C++ type under two names',
 'registering a type again under another name returns the class of the first name', mut('cls-type-first-name-wins'), r"""
struct A : Extends<Object> {};
int main() {
  VM vm; auto env = vm.GetEnv(); auto e = env->GetJNIEnv();
  auto a = env->GetClass<A>("x/A"); auto b = env->GetClass<A>("y/B");
  REQ(a->nativeprefix == "x/A"); REQ(b->nativeprefix == "y/B"); REQ(a != b);
  REQ(b == env->GetClass("y/B"));
  return 0;
}
""")

PROBE = r"""
struct Probe : Extends<Object> { bool* d; Probe(bool* d) : d(d) {} ~Probe() { if(d) *d = true; } };
"""
seed('c07-newlocal-when-shared', 'C07', 'NewLocalRef of an object several others hold, which all let go before the new reference is used',
 'NewLocalRef does not hold an object that has several owners already', mut('hnd-newlocal-when-shared'), PROBE + r"""
int main() {
  VM vm; auto env = vm.GetEnv(); auto e = env->GetJNIEnv(); bool dead = false; env->GetClass<Probe>("Probe");
  auto p = std::make_shared<Probe>(&dead); std::vector<std::shared_ptr<Probe>> more(8, p);
  jobject a = JNITypes<std::shared_ptr<Probe>>::ToJNIType(env.get(), p);
  jobject g = e->NewGlobalRef(a); e->DeleteLocalRef(a);
  jobject l = e->NewLocalRef(g); REQ(l);
  more.clear(); p.reset(); e->DeleteGlobalRef(g);
  REQ(!dead);
  return 0;
}
""")
seed('c07-pointer-unowned', 'C07', 'a raw pointer to an object no shared pointer owns is converted to a handle that outlives the object',
 'a raw pointer to an object without owner is wrapped without owning anything instead of being copied', mut('hnd-tojni-ptr-unowned'), r"""
struct Plain : Extends<Object> { int v = 0; };
int main() {
  VM vm; auto env = vm.GetEnv(); env->GetClass<Plain>("Plain");
  Plain* p = new Plain(); p->v = 7;
  jobject a = JNITypes<Plain>::ToJNIType(env.get(), (Plain* const)p);
  REQ(a); REQ(a != (jobject)(Object*)p);
  delete p;
  REQ((JNITypes<std::shared_ptr<Plain>>::JNICast(env.get(), a)->v == 7));
  return 0;
}
""")
seed('c07-receiver-unheld', 'C07', 'a native method invoked from C++ whose implementation makes the host drop its owner of the receiver',
 'the receiver of a method invoked from C++ is passed to native code without being held', mut('hnd-invoke-raw-receiver'), PROBE + r"""
static std::shared_ptr<Probe>* owner; static bool dead;
static void nat(JNIEnv* e, jobject self) { owner->reset(); REQ(!dead); }
int main() {
  VM vm; auto env = vm.GetEnv(); auto e = env->GetJNIEnv(); auto c = env->GetClass<Probe>("Probe");
  JNINativeMethod m[] = {{(char*)"nat", (char*)"()V", (void*)nat}};
  e->RegisterNatives(e->FindClass("Probe"), m, 1);
  auto p = std::make_shared<Probe>(&dead); owner = &p; p->clazz = c;
  std::shared_ptr<Method> mm; for(auto& x : c->methods) if(x->name == "nat") mm = x;
  REQ(mm); mm->_static = false; mm->invoke(*e, (Object*)p.get());
  return 0;
}
""")
seed('c07-dummy-unheld', 'C07', 'calling an unimplemented method returning a class without C++ type',
 'the dummy object returned by an unimplemented method has no owner', mut('hnd-default-dummy-raw'), r"""
int main() {
  VM vm; auto env = vm.GetEnv(); auto e = env->GetJNIEnv();
  jclass c = e->FindClass("x/C"); jmethodID id = e->GetStaticMethodID(c, "make", "()Lx/Other;");
  e->PushLocalFrame(8); size_t before = env->localframe.front().size();
  jobject o = e->CallStaticObjectMethod(c, id);
  if(o) { bool held = false; for(auto& r : env->localframe.front()) if((jobject)r.get() == o) held = true; REQ(held); }
  else REQ(before >= 0);
  return 0;
}
""")
# ---- C23
seed('c23-signature-of-leading', 'C23', 'a member function with a leading environment parameter and at least three further parameters',
 'the signature of member functions with an environment parameter and three or more arguments is shifted by one parameter', mut('hk-memfn-sig-offset'), r"""
struct Thing : Extends<Object> { int s = 0; void put(ENV* e, jint a, jint b, jint c) { s = a * 100 + b * 10 + c; } };
int main() {
  VM vm; auto env = vm.GetEnv(); auto e = env->GetJNIEnv(); auto c = env->GetClass<Thing>("Thing");
  c->Hook(env.get(), "put", &Thing::put);
  jmethodID id = nullptr; for(auto& m : c->methods) if(m->name == "put" && m->signature == "(III)V") id = (jmethodID)m.get();
  REQ(id);
  auto t = std::make_shared<Thing>(); e->CallVoidMethod(JNITypes<std::shared_ptr<Thing>>::ToJNIType(env.get(), t), id, 1, 2, 3);
  REQ(t->s == 123);
  return 0;
}
""")
seed('c23-ninth-argument', 'C23', 'an instance hook with more than eight arguments',
 'the ninth argument of an instance hook is read from the slot of the first', mut('hk-slot-wrap-eight'), r"""
struct Thing : Extends<Object> {};
int main() {
  VM vm; auto env = vm.GetEnv(); auto e = env->GetJNIEnv(); auto c = env->GetClass<Thing>("Thing");
  static int got = 0;
  c->HookInstanceFunction(env.get(), "f", [](ENV*, Object* o, jint a, jint b, jint c, jint d, jint e, jint f, jint g, jint h, jint i) { got = i * 10 + a; });
  jmethodID id = nullptr; for(auto& m : c->methods) if(m->name == "f" && m->signature == "(IIIIIIIII)V") id = (jmethodID)m.get();
  REQ(id); e->CallVoidMethod(JNITypes<std::shared_ptr<Thing>>::ToJNIType(env.get(), std::make_shared<Thing>()), id, 1, 2, 3, 4, 5, 6, 7, 8, 9);
  REQ(got == 91);
  return 0;
}
""")
seed('c23-twin-hook-lost', 'C23', 'a static and an instance field with the same name and type are hooked in one class',
 'registering a property hook reuses the member of the same name and type whatever its kind', [('include/jnivm/hookManager.h', 'return f->_static == isStatic && f->name == id && f->type == ssig;', 'return (f->_static == isStatic || f->setnativehandle) && f->name == id && f->type == ssig;')], r"""
struct Thing : Extends<Object> { jint v = 3; };
static jint sv = 5;
int main() {
  VM vm; auto env = vm.GetEnv(); auto e = env->GetJNIEnv(); auto c = env->GetClass<Thing>("Thing");
  c->Hook(env.get(), "v", &Thing::v); c->Hook(env.get(), "v", &sv);
  jclass k = e->FindClass("Thing"); auto t = std::make_shared<Thing>(); jobject o = JNITypes<std::shared_ptr<Thing>>::ToJNIType(env.get(), t);
  jfieldID i = e->GetFieldID(k, "v", "I"), s = e->GetStaticFieldID(k, "v", "I");
  REQ(e->GetIntField(o, i) == 3); REQ(e->GetStaticIntField(k, s) == 5);
  return 0;
}
""")
seed('c23-receiver-of-other-class', 'C23', 'an instance hook whose first parameter is an object of another registered class than the hooked one',
 'the first object parameter is taken as the receiver in a class its type was not registered for', mut('hk-receiver-unfiltered'), r"""
struct Thing : Extends<Object> { int v = 1; }; struct Other : Extends<Object> {};
int main() {
  VM vm; auto env = vm.GetEnv(); auto e = env->GetJNIEnv(); env->GetClass<Thing>("Thing"); auto c = env->GetClass<Other>("Other");
  c->HookInstanceFunction(env.get(), "f", [](ENV*, Thing* t, jint a) -> jint { return t ? t->v + a : -1; });
  for(auto& m : c->methods) REQ(m->signature == "(LThing;I)I");
  return 0;
}
""")
seed('c23-rehook-ignored', 'C23', 'hooking the same method a second time',
 'a second hook for the same method does not replace the first', mut('hk-keeps-first-hook'), r"""
struct Thing : Extends<Object> {};
int main() {
  VM vm; auto env = vm.GetEnv(); auto e = env->GetJNIEnv(); auto c = env->GetClass<Thing>("Thing");
  c->Hook(env.get(), "f", []() -> jint { return 1; }); c->Hook(env.get(), "f", []() -> jint { return 2; });
  jclass k = e->FindClass("Thing"); REQ(e->CallStaticIntMethod(k, e->GetStaticMethodID(k, "f", "()I")) == 2);
  return 0;
}
""")
seed('c02-short-as-char', 'C02', 'invoking a method returning a negative short from C++ through Method::invoke',
 'the typed invocation of a static short method goes through the char entry', mut('lt-invoke-short-char'), r"""
int main() {
  VM vm; auto env = vm.GetEnv(); auto e = env->GetJNIEnv(); auto fn = const_cast<JNINativeInterface*>(e->functions); static int chars = 0, shorts = 0;
  fn->CallStaticCharMethodA = [](JNIEnv*, jclass, jmethodID, jvalue*) -> jchar { chars++; return 1; };
  fn->CallStaticShortMethodA = [](JNIEnv*, jclass, jmethodID, jvalue*) -> jshort { shorts++; return -2; };
  auto c = env->GetClass("Any"); auto m = std::make_shared<Method>(); m->name = "f"; m->signature = "()S"; m->_static = true;
  REQ(m->invoke(*e, c.get()).s == -2); REQ(chars == 0 && shorts == 1);
  return 0;
}
""")
seed('c02-float-array-default', 'C02', 'calling a method without implementation that returns a float array',
 'the default value of a float array method is null while every other array gets an empty array', mut('lt-default-float'), r"""
int main() {
  VM vm; auto env = vm.GetEnv(); auto e = env->GetJNIEnv(); jclass k = e->FindClass("Any");
  for(auto s : {"()[B", "()[S", "()[C", "()[I", "()[J", "()[F", "()[D"}) REQ(e->CallStaticObjectMethod(k, e->GetStaticMethodID(k, "f", s)));
  return 0;
}
""")
seed('c02-float-in-double-member', 'C02', 'a variadic call with a float argument',
 'a float argument is written as a double', mut('lt-va-float-direct'), r"""
struct Thing : Extends<Object> {};
int main() {
  VM vm; auto env = vm.GetEnv(); auto e = env->GetJNIEnv(); auto c = env->GetClass<Thing>("Thing"); jfloat got = 0;
  c->Hook(env.get(), "f", [&](jfloat a) { got = a; });
  jclass k = e->FindClass("Thing"); e->CallStaticVoidMethod(k, e->GetStaticMethodID(k, "f", "(F)V"), 1.1f);
  REQ(got == 1.1f);
  return 0;
}
""")
seed('c02-short-default-chars', 'C02', 'an unimplemented method returning an array of shorts',
 'the default value of a method returning short[] is a char[]', mut('lt-default-short'), r"""
struct Thing : Extends<Object> {};
int main() {
  VM vm; auto env = vm.GetEnv(); auto e = env->GetJNIEnv(); env->GetClass<Thing>("Thing"); jclass k = e->FindClass("Thing");
  auto o = e->CallStaticObjectMethod(k, e->GetStaticMethodID(k, "f", "()[S")); REQ(o);
  REQ(JNITypes<std::shared_ptr<Array<jshort>>>::JNICast(env.get(), o) != nullptr);
  return 0;
}
""")
# ---- C25
seed('c25-vector-copies-bytes', 'C25', 'an array made from a vector of elements wider than a byte',
 'only as many bytes as the vector has elements are copied', mut('ar-vec-short-copy'), r"""
int main() {
  VM vm; auto env = vm.GetEnv();
  std::vector<jint> v = { 0x01020304, 0x11223344, 0x55667788 };
  Array<jint> a(v);
  for(int i = 0; i < 3; i++) REQ(a[i] == v[i]);
  return 0;
}
""")
seed('c25-elements-copied', 'C25', 'Get<T>ArrayElements of a long array with a copy flag, then a write through the pointer',
 'the elements of a long array are handed out as a copy nobody writes back or releases', mut('ar-elements-copied'), r"""
int main() {
  VM vm; auto env = vm.GetEnv(); auto e = env->GetJNIEnv();
  auto a = e->NewIntArray(4000); jboolean copy = 7; jint* p = e->GetIntArrayElements(a, &copy); REQ(p); REQ(!copy);
  p[3999] = 42; e->ReleaseIntArrayElements(a, p, 0);
  jint out = 0; e->GetIntArrayRegion(a, 3999, 1, &out); REQ(out == 42);
  return 0;
}
""")
seed('c25-region-start-in-bytes', 'C25', 'GetLongArrayRegion with a start other than zero',
 'the start of a region is taken in bytes', mut('ar-get-region-bytes'), r"""
int main() {
  VM vm; auto env = vm.GetEnv(); auto e = env->GetJNIEnv();
  jlong buf[4] = { 1, 2, 3, 4 }; auto a = e->NewLongArray(4); e->SetLongArrayRegion(a, 0, 4, buf);
  jlong out[2]; e->GetLongArrayRegion(a, 2, 2, out);
  REQ(out[0] == 3); REQ(out[1] == 4);
  return 0;
}
""")
seed('c25-lent-buffer-released', 'C25', 'an array lent a buffer of the host, and its destruction',
 'lent storage is released with the array', mut('ar-lent-owned'), r"""
#include <cstdlib>
static void * lent; static bool freed;
void operator delete[](void * p) noexcept { if(p == lent && p) { freed = true; return; } free(p); }
void operator delete[](void * p, size_t) noexcept { operator delete[](p); }
void * operator new[](size_t n) { return malloc(n); }
int main() {
  VM vm; auto env = vm.GetEnv();
  jint buf[4] = { 1, 2, 3, 4 }; lent = buf;
  { Array<jint> a(buf, 4, false); REQ(a.getArray() == buf); REQ(a[3] == 4); }
  REQ(!freed);
  return 0;
}
""")
seed('c25-stored-before-rejected', 'C25', 'an object of an unrelated class stored into an array of another class, twice, the rejection caught',
 'the element is overwritten before the store is rejected', mut('ar-set-before-check'), r"""
struct Thing : Extends<Object> {}; struct Alien : Extends<Object> {};
int main() {
  VM vm; auto env = vm.GetEnv(); auto e = env->GetJNIEnv(); env->GetClass<Thing>("Thing"); env->GetClass<Alien>("Alien");
  auto arr = std::make_shared<Array<Thing>>(2); auto t = std::make_shared<Thing>(); (*arr)[1] = t;
  auto h = JNITypes<std::shared_ptr<Array<Thing>>>::ToJNIReturnType(env.get(), arr);
  auto al = std::make_shared<Alien>(); auto hal = JNITypes<std::shared_ptr<Alien>>::ToJNIReturnType(env.get(), al);
  bool thrown = false;
  try { e->SetObjectArrayElement((jobjectArray)h, 1, hal); } catch(...) { thrown = true; }
  REQ(thrown);
  REQ(std::shared_ptr<Thing>((*arr)[1]) == t);
  return 0;
}
""")
seed('c25-region-beyond-length-ignored', 'C25', 'GetByteArrayRegion of a region that ends at the end of the array',
 'a region reaching the end of the array is not copied', mut('ar-get-region-skip'), r"""
int main() {
  VM vm; auto env = vm.GetEnv(); auto e = env->GetJNIEnv();
  jbyte buf[4] = { 1, 2, 3, 4 }; auto a = e->NewByteArray(4); e->SetByteArrayRegion(a, 0, 4, buf);
  jbyte out[4] = { 9, 9, 9, 9 }; e->GetByteArrayRegion(a, 0, 3, out); REQ(out[2] == 3);
  e->GetByteArrayRegion(a, 1, 3, out); REQ(out[2] == 4);
  return 0;
}
""")
