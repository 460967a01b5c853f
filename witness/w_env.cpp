// Construction of environments, table hooks, and the scoped contexts of the fake-jni layer.
#include <fake-jni/fake-jni.h>
#include <new>
namespace witness {
FakeJni::Env* make_env(void* p, FakeJni::Jvm& j, jnivm::VM* vm, const JNINativeInterface& t) { return new(p) FakeJni::Env(j, vm, t); }
void add_hook(jnivm::VM* vm, std::function<void(JNINativeInterface&)>& f) { vm->AddHook(std::move(f)); }
void frame_enter_vm(FakeJni::LocalFrame* p, const FakeJni::Jvm& vm, int size) { new(p) FakeJni::LocalFrame(vm, size); }
void frame_enter(FakeJni::LocalFrame* p, int size) { new(p) FakeJni::LocalFrame(size); }
void frame_leave(FakeJni::LocalFrame* f) { f->~LocalFrame(); }
}
