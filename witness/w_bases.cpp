// Hierarchies with one, two and three declared bases.
#include <jnivm.h>
#include <jnivm/extends.h>
#include <jnivm/class.h>
#include <jnivm/env.h>
#include <jnivm/vm.h>
namespace witness {
using namespace jnivm;
struct HA : public Extends<> {};
struct HB : public Extends<> {};
struct HC : public Extends<HA> {};
struct HD : public Extends<HA, HB> {};
struct HE : public Extends<HD, HC, HB> {};
std::shared_ptr<Class> classes(ENV* env, int i) {
  switch(i) {
  case 0: return env->GetClass<HA>("HA");
  case 1: return env->GetClass<HC>("HC");
  case 2: return env->GetClass<HD>("HD");
  default: return env->GetClass<HE>("HE");
  }
}
}
