From 8de7af2ff7b84d83f80cd76eb88a0db3064c438b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:45 +0000
Subject: [PATCH 01/20] fix: Throw of a throwable without exception_ptr left an
 unrethrowable pending exception

---
 src/jnivm/vm.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jnivm/vm.cpp b/src/jnivm/vm.cpp
index b27b9d2..59d3155 100644
--- a/src/jnivm/vm.cpp
+++ b/src/jnivm/vm.cpp
@@ -81,6 +81,10 @@ jobject ToReflectedField(JNIEnv * env, jclass c, jfieldID fid, jboolean isStatic
 };
 jint Throw(JNIEnv *env, jthrowable ex) {
 	auto except = JNITypes<std::shared_ptr<jnivm::Throwable>>::JNICast(ENV::FromJNIEnv(env), ex);
+	if(except && !except->except) {
+		// This Throwable was never thrown by c++ code, it still has to be rethrowable
+		except->except = std::make_exception_ptr(std::runtime_error("java exception"));
+	}
 	(ENV::FromJNIEnv(env))->current_exception = except ? except : nullptr;
 	return 0;
 };
-- 
2.43.0


From d3f4cc95402921577dba51b875b414bd1ff3014d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:58 +0000
Subject: [PATCH 02/20] fix: FromReflectedMethod/Field returned a global or
 weak reference itself as the id

---
 src/jnivm/vm.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jnivm/vm.cpp b/src/jnivm/vm.cpp
index 59d3155..c09d632 100644
--- a/src/jnivm/vm.cpp
+++ b/src/jnivm/vm.cpp
@@ -33,14 +33,14 @@ jclass FindClass(JNIEnv *env, const char *name) {
 };
 jmethodID FromReflectedMethod(JNIEnv *env, jobject obj) {
 	if(obj && env->functions->IsSameObject(env, env->functions->GetObjectClass(env, obj), FindClass(env, "java/lang/reflect/Method"))) {
-		return (jmethodID) obj;
+		return (jmethodID) JNITypes<std::shared_ptr<Method>>::JNICast(ENV::FromJNIEnv(env), obj).get();
 	} else {
 		return nullptr;
 	}
 };
 jfieldID FromReflectedField(JNIEnv *env, jobject obj) {
 	if(obj && env->functions->IsSameObject(env, env->functions->GetObjectClass(env, obj), FindClass(env, "java/lang/reflect/Field"))) {
-		return (jfieldID) obj;
+		return (jfieldID) JNITypes<std::shared_ptr<Field>>::JNICast(ENV::FromJNIEnv(env), obj).get();
 	} else {
 		return nullptr;
 	}
-- 
2.43.0


From a7d161cca6a1479f7fedf1bc24d8f0075b8db87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:55 +0000
Subject: [PATCH 03/20] fix: NewObjectArray stored the global or weak reference
 itself instead of its object

---
 src/jnivm/internal/array.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/jnivm/internal/array.cpp b/src/jnivm/internal/array.cpp
index d220630..ae15d3a 100644
--- a/src/jnivm/internal/array.cpp
+++ b/src/jnivm/internal/array.cpp
@@ -13,9 +13,10 @@ jobjectArray jnivm::NewObjectArray(JNIEnv * env, jsize length, jclass c, jobject
     // auto arr = std::make_shared<Array<Object>>(new std::shared_ptr<Object>[length], length);
     auto arr = cl->InstantiateArray ? cl->InstantiateArray(ENV::FromJNIEnv(env), length) : std::make_shared<Array<Object>>(length);
     arr->clazz = std::move(cl);
-    if(init) {
+    auto initial = JNITypes<std::shared_ptr<Object>>::JNICast(ENV::FromJNIEnv(env), init);
+    if(initial) {
         for (jsize i = 0; i < length; i++) {
-            (*arr)[i] = (*(Object*)init).shared_from_this();
+            (*arr)[i] = initial;
         }
     }
     return JNITypes<std::shared_ptr<Array<Object>>>::ToJNIType(ENV::FromJNIEnv(env), arr);
-- 
2.43.0


From eb29fabf50c884d75916bb9d35818d6186cc9f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:55 +0000
Subject: [PATCH 04/20] fix: New<Primitive>Array leaked the zero-initialised
 buffer it copied from

---
 src/jnivm/internal/array.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jnivm/internal/array.cpp b/src/jnivm/internal/array.cpp
index ae15d3a..a17108e 100644
--- a/src/jnivm/internal/array.cpp
+++ b/src/jnivm/internal/array.cpp
@@ -1,4 +1,5 @@
 #include <jnivm/class.h>
+#include <algorithm>
 #include "array.hpp"
 
 using namespace jnivm;
@@ -29,7 +30,8 @@ void jnivm::SetObjectArrayElement(JNIEnv *env, jobjectArray a, jsize i, jobject
 }
 
 template <class T> typename JNITypes<T>::Array jnivm::NewArray(JNIEnv * env, jsize length) {
-    auto arr = length ? std::make_shared<Array<T>>(new T[length] {0}, length) : std::make_shared<Array<T>>(0);
+    auto arr = std::make_shared<Array<T>>(length);
+    std::fill_n(arr->getArray(), length, T());
     arr->clazz = InternalFindClass(ENV::FromJNIEnv(env), (std::string("[") + JNITypes<T>::GetJNISignature(ENV::FromJNIEnv(env))).data());
     return JNITypes<std::shared_ptr<Array<T>>>::ToJNIType(ENV::FromJNIEnv(env), arr);
 }
-- 
2.43.0


From 2e1e457300971e2df2209e5a6c782c23896bcf6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:57 +0000
Subject: [PATCH 05/20] fix: GetMethodID added a new method to its class
 without the class lock

---
 src/jnivm/internal/method.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/jnivm/internal/method.cpp b/src/jnivm/internal/method.cpp
index a9fe678..efa580e 100644
--- a/src/jnivm/internal/method.cpp
+++ b/src/jnivm/internal/method.cpp
@@ -60,15 +60,16 @@ jmethodID jnivm::GetMethodID(JNIEnv *env, jclass cl, const char *str0, const cha
             return nullptr;
         }
         next = std::make_shared<Method>();
+        next->name = std::move(sname);
+        next->signature = std::move(ssig);
+        next->_static = isStatic;
         if(cur) {
+            std::lock_guard<std::mutex> lock(cur->mtx);
             cur->methods.push_back(next);
         } else {
             // For Debugging purposes without valid parent class
             JNITypes<std::shared_ptr<Method>>::ToJNIType(ENV::FromJNIEnv(env), next);
         }
-        next->name = std::move(sname);
-        next->signature = std::move(ssig);
-        next->_static = isStatic;
 #ifdef JNI_DEBUG
         Declare(env, next->signature.data());
 #endif
-- 
2.43.0


From c98758fefaac8d6510d5b2202e05ab36a95b663b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:19 +0000
Subject: [PATCH 06/20] fix: reference, array and signature handling searched
 the class tables without the VM lock

---
 src/jnivm/internal/array.cpp     | 11 +++++++++--
 src/jnivm/internal/findclass.cpp |  5 ++++-
 src/jnivm/internal/method.cpp    |  6 +++++-
 src/jnivm/vm.cpp                 | 10 ++++++++--
 4 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/jnivm/internal/array.cpp b/src/jnivm/internal/array.cpp
index a17108e..7b958d6 100644
--- a/src/jnivm/internal/array.cpp
+++ b/src/jnivm/internal/array.cpp
@@ -10,7 +10,11 @@ jsize jnivm::GetArrayLength(JNIEnv *env, jarray a) {
 jobjectArray jnivm::NewObjectArray(JNIEnv * env, jsize length, jclass c, jobject init) {
     auto cl0 = JNITypes<std::shared_ptr<Class>>::JNICast(ENV::FromJNIEnv(env), c);
     auto classname = cl0->nativeprefix[0] == '[' ? "[" + cl0->nativeprefix : "[L" + cl0->nativeprefix + ";";
-    auto cl = InternalFindClass(ENV::FromJNIEnv(env), classname.data());
+    std::shared_ptr<Class> cl;
+    {
+        std::lock_guard<std::mutex> lock(ENV::FromJNIEnv(env)->GetVM()->mtx);
+        cl = InternalFindClass(ENV::FromJNIEnv(env), classname.data());
+    }
     // auto arr = std::make_shared<Array<Object>>(new std::shared_ptr<Object>[length], length);
     auto arr = cl->InstantiateArray ? cl->InstantiateArray(ENV::FromJNIEnv(env), length) : std::make_shared<Array<Object>>(length);
     arr->clazz = std::move(cl);
@@ -32,7 +36,10 @@ void jnivm::SetObjectArrayElement(JNIEnv *env, jobjectArray a, jsize i, jobject
 template <class T> typename JNITypes<T>::Array jnivm::NewArray(JNIEnv * env, jsize length) {
     auto arr = std::make_shared<Array<T>>(length);
     std::fill_n(arr->getArray(), length, T());
-    arr->clazz = InternalFindClass(ENV::FromJNIEnv(env), (std::string("[") + JNITypes<T>::GetJNISignature(ENV::FromJNIEnv(env))).data());
+    {
+        std::lock_guard<std::mutex> lock(ENV::FromJNIEnv(env)->GetVM()->mtx);
+        arr->clazz = InternalFindClass(ENV::FromJNIEnv(env), (std::string("[") + JNITypes<T>::GetJNISignature(ENV::FromJNIEnv(env))).data());
+    }
     return JNITypes<std::shared_ptr<Array<T>>>::ToJNIType(ENV::FromJNIEnv(env), arr);
 }
 
diff --git a/src/jnivm/internal/findclass.cpp b/src/jnivm/internal/findclass.cpp
index dd71499..f58537b 100644
--- a/src/jnivm/internal/findclass.cpp
+++ b/src/jnivm/internal/findclass.cpp
@@ -109,7 +109,10 @@ void jnivm::Declare(JNIEnv *env, const char *signature) {
 		if (*cur == 'L') {
 			auto cend = std::find(cur, end, ';');
 			std::string classpath(cur + 1, cend);
-			InternalFindClass(env, classpath.data());
+			{
+				std::lock_guard<std::mutex> lock(ENV::FromJNIEnv(env)->GetVM()->mtx);
+				InternalFindClass(ENV::FromJNIEnv(env), classpath.data());
+			}
 			cur = cend;
 		}
 	}
diff --git a/src/jnivm/internal/method.cpp b/src/jnivm/internal/method.cpp
index efa580e..ff63047 100644
--- a/src/jnivm/internal/method.cpp
+++ b/src/jnivm/internal/method.cpp
@@ -125,7 +125,11 @@ template<> jobject jnivm::defaultVal(ENV* env, std::string signature) {
             }
             
         } else if(signature[off + 1] == 'L' && signature[signature.size() - 1] == ';'){
-            auto c = env->GetClass(signature.substr(off + 2, signature.size() - (off + 3)).data());
+            std::shared_ptr<Class> c;
+            {
+                std::lock_guard<std::mutex> guard(env->GetVM()->mtx);
+                c = env->GetClass(signature.substr(off + 2, signature.size() - (off + 3)).data());
+            }
             if(c->Instantiate) {
 #ifdef JNI_TRACE
                 LOG("JNIVM", "Construct object=`%s` via default constructor", &signature.data()[off + 1]);
diff --git a/src/jnivm/vm.cpp b/src/jnivm/vm.cpp
index c09d632..e262c1b 100644
--- a/src/jnivm/vm.cpp
+++ b/src/jnivm/vm.cpp
@@ -171,7 +171,10 @@ jobject NewGlobalRef(JNIEnv * env, jobject obj) {
 	}
 	auto global = std::make_shared<Global>();
 	global->wrapped = std::move(strong);
-	global->clazz = InternalFindClass(ENV::FromJNIEnv(env), "internal/lang/Global");
+	{
+		std::lock_guard<std::mutex> guard(ENV::FromJNIEnv(env)->GetVM()->mtx);
+		global->clazz = InternalFindClass(ENV::FromJNIEnv(env), "internal/lang/Global");
+	}
 	return NewGlobalRef(env, global);
 };
 void DeleteGlobalRef(JNIEnv * env, std::shared_ptr<Object> obj) {
@@ -321,7 +324,10 @@ jweak NewWeakGlobalRef(JNIEnv *env, jobject obj) {
 	}
 	auto weak = std::make_shared<Weak>();
 	weak->wrapped = strong;
-	weak->clazz = InternalFindClass(ENV::FromJNIEnv(env), "java/lang/ref/WeakReference");
+	{
+		std::lock_guard<std::mutex> guard(ENV::FromJNIEnv(env)->GetVM()->mtx);
+		weak->clazz = InternalFindClass(ENV::FromJNIEnv(env), "java/lang/ref/WeakReference");
+	}
 
 	return (jweak) NewGlobalRef(env, weak);
 }
-- 
2.43.0


From 0442679fd128d99dfb66a763372c087740c04656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:19 +0000
Subject: [PATCH 07/20] fix: overload search read the method table without the
 class lock

---
 src/jnivm/internal/method.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jnivm/internal/method.cpp b/src/jnivm/internal/method.cpp
index ff63047..bdbe9e6 100644
--- a/src/jnivm/internal/method.cpp
+++ b/src/jnivm/internal/method.cpp
@@ -174,6 +174,7 @@ static Method* findNonVirtualOverload(Class*cl, Method*mid) {
     if(!cl) {
         return mid;
     }
+    std::lock_guard<std::mutex> lock(cl->mtx);
     auto res = std::find_if(cl->methods.begin(), cl->methods.end(), [mid](auto&& m) {
         return !m->_static && mid->name == m->name && mid->signature == m->signature && m->nativehandle;
     });
-- 
2.43.0


From 0fc7c14465818a2c1879cb01ad5fea97eb0a0112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:23 +0000
Subject: [PATCH 08/20] fix: the table of C++ types was read without the VM
 lock while resolving a type's class

---
 include/jnivm/env.h           |  1 +
 include/jnivm/extends.h       |  2 ++
 include/jnivm/jnitypes.h      |  3 +--
 src/jnivm/internal/method.cpp | 12 +++++++-----
 src/jnivm/vm.cpp              |  8 ++++++--
 5 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/include/jnivm/env.h b/include/jnivm/env.h
index 5505207..7595083 100644
--- a/include/jnivm/env.h
+++ b/include/jnivm/env.h
@@ -62,6 +62,7 @@ namespace jnivm {
             static_assert(std::is_base_of<Object, T>::value, "You have to public extend jnivm::Object / FakeJni::JObject");
             return [](ENV* env) -> std::shared_ptr<jnivm::Object> {
                 auto res = std::make_shared<T>();
+                std::lock_guard<std::mutex> lock(env->GetVM()->mtx);
                 auto f = env->GetVM()->typecheck.find(typeid(T));
                 if(f != env->GetVM()->typecheck.end()) {
                     res->clazz = f->second;
diff --git a/include/jnivm/extends.h b/include/jnivm/extends.h
index d7b7aad..112f490 100644
--- a/include/jnivm/extends.h
+++ b/include/jnivm/extends.h
@@ -2,6 +2,7 @@
 #include "object.h"
 #include "env.h"
 #include "arrayBase.h"
+#include <mutex>
 #include <typeindex>
 #include <stdexcept>
 
@@ -14,6 +15,7 @@ namespace jnivm {
             template<class T>
             using ArrayBaseType = ArrayBase<T, BaseClasses...>;
             static std::vector<std::shared_ptr<Class>> GetBaseClasses(ENV* env) {
+                std::lock_guard<std::mutex> lock(env->GetVM()->mtx);
                 std::vector<std::shared_ptr<Class>> ret = { env->GetVM()->typecheck[typeid(BaseClasses)]... };
 #ifndef NDEBUG
                 for(size_t i = 0, size = ret.size(); i < size; ++i) {
diff --git a/include/jnivm/jnitypes.h b/include/jnivm/jnitypes.h
index 473101e..7fbde7c 100644
--- a/include/jnivm/jnitypes.h
+++ b/include/jnivm/jnitypes.h
@@ -284,8 +284,7 @@ template<class T, class B, class orgtype> std::string jnivm::JNITypesObjectBase<
 }
 
 template<class T, class B, class orgtype> std::shared_ptr<jnivm::Class> jnivm::JNITypesObjectBase<T, B, orgtype>::GetClass(jnivm::ENV *env) {
-    // ToDo find the deadlock or replace with recursive_mutex
-    // std::lock_guard<std::mutex> lock(env->GetVM()->mtx);
+    std::lock_guard<std::mutex> lock(env->GetVM()->mtx);
     auto r = env->GetVM()->typecheck.find(typeid(T));
     if(r != env->GetVM()->typecheck.end()) {
         return r->second;
diff --git a/src/jnivm/internal/method.cpp b/src/jnivm/internal/method.cpp
index bdbe9e6..5710ec7 100644
--- a/src/jnivm/internal/method.cpp
+++ b/src/jnivm/internal/method.cpp
@@ -136,12 +136,14 @@ template<> jobject jnivm::defaultVal(ENV* env, std::string signature) {
 #endif
                 return JNITypes<std::shared_ptr<Object>>::ToJNIReturnType(env, c->Instantiate(env));
             } else {
-                std::lock_guard<std::mutex> guard(env->GetVM()->mtx);
                 bool safetocreatedummy = true;
-                for(auto&& ty : env->GetVM()->typecheck) {
-                    if(ty.second == c) {
-                        safetocreatedummy = false;
-                        break;
+                {
+                    std::lock_guard<std::mutex> guard(env->GetVM()->mtx);
+                    for(auto&& ty : env->GetVM()->typecheck) {
+                        if(ty.second == c) {
+                            safetocreatedummy = false;
+                            break;
+                        }
                     }
                 }
                 if(safetocreatedummy) {
diff --git a/src/jnivm/vm.cpp b/src/jnivm/vm.cpp
index e262c1b..810f4c5 100644
--- a/src/jnivm/vm.cpp
+++ b/src/jnivm/vm.cpp
@@ -28,8 +28,12 @@ jclass DefineClass(JNIEnv *, const char *, jobject, const jbyte *, jsize) {
 template<bool returnZero=false>
 jclass FindClass(JNIEnv *env, const char *name) {
 	auto&& nenv = *ENV::FromJNIEnv(env);
-	std::lock_guard<std::mutex> lock(nenv.GetVM()->mtx);
-	return InternalFindClass(env, name, returnZero, true);
+	std::shared_ptr<Class> c;
+	{
+		std::lock_guard<std::mutex> lock(nenv.GetVM()->mtx);
+		c = InternalFindClass(&nenv, name, returnZero, true);
+	}
+	return JNITypes<std::shared_ptr<Class>>::ToJNIType(&nenv, c);
 };
 jmethodID FromReflectedMethod(JNIEnv *env, jobject obj) {
 	if(obj && env->functions->IsSameObject(env, env->functions->GetObjectClass(env, obj), FindClass(env, "java/lang/reflect/Method"))) {
-- 
2.43.0


From d1d2f4f1dce9726c0aa6ee7415362c611178a933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:05 +0000
Subject: [PATCH 09/20] fix: a virtual call skipped the overrides of the base
 classes of the object's class

---
 src/jnivm/internal/method.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/jnivm/internal/method.cpp b/src/jnivm/internal/method.cpp
index 5710ec7..91ba433 100644
--- a/src/jnivm/internal/method.cpp
+++ b/src/jnivm/internal/method.cpp
@@ -189,11 +189,14 @@ static Method* findNonVirtualOverload(Class*cl, Method*mid) {
 
 static Method* findVirtualOverload(jnivm::ENV *env, Class*cl, Method*mid) {
     auto r = findNonVirtualOverload(cl, mid);
-    if(r != nullptr) {
-        return r;
-    } else {
-        return findVirtualOverload(env, mid->GetBaseClasses(env)[0].get(), mid);
+    if(r == nullptr && cl->baseclasses) {
+        for(auto&& base : cl->baseclasses(env)) {
+            if(base && (r = findVirtualOverload(env, base.get(), mid))) {
+                break;
+            }
+        }
     }
+    return r;
 }
 
 template<class T> T jnivm::MDispatchBase2<T>::CallMethod(JNIEnv *env, jobject obj, jmethodID id, jvalue *param) {
@@ -206,7 +209,10 @@ template<class T> T jnivm::MDispatchBase2<T>::CallMethod(JNIEnv *env, jobject ob
 #endif
     if (mid && mid->nativehandle) {
         auto cl = JNITypes<std::shared_ptr<Class>>::JNICast(ENV::FromJNIEnv(env), env->GetObjectClass(obj));
-        mid = findVirtualOverload(ENV::FromJNIEnv(env), cl.get(), mid);
+        auto overload = findVirtualOverload(ENV::FromJNIEnv(env), cl.get(), mid);
+        if(overload) {
+            mid = overload;
+        }
 #ifdef JNI_TRACE
         LOG("JNIVM", "Call Member Function Class=`%s` Method=`%s` Signature=`%s`", cl ? cl->nativeprefix.data() : "???", mid->name.data(), mid->signature.data());
 #endif
-- 
2.43.0


From 44ccb4de788aff0432dd900bfeefd6cce507ca30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:05 +0000
Subject: [PATCH 10/20] fix: a non-virtual call through a class without an own
 implementation dereferenced null

---
 src/jnivm/internal/method.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/jnivm/internal/method.cpp b/src/jnivm/internal/method.cpp
index 91ba433..81ac27e 100644
--- a/src/jnivm/internal/method.cpp
+++ b/src/jnivm/internal/method.cpp
@@ -277,7 +277,11 @@ template<class T> T jnivm::MDispatchBase2<T>::CallMethod(JNIEnv *env, jobject ob
 #ifdef JNI_TRACE
         LOG("JNIVM", "Call NonVirtual Member Function Class=`%s` Method=`%s` Signature=`%s`", clz ? clz->nativeprefix.data() : "???", mid->name.data(), mid ? mid->signature.data() : "???");
 #endif
-        mid = findNonVirtualOverload(clz.get(), mid);
+        // The given class may inherit its implementation
+        auto overload = findVirtualOverload(ENV::FromJNIEnv(env), clz.get(), mid);
+        if(overload) {
+            mid = overload;
+        }
         try {
             return static_cast<jnivm::impl::MethodHandleBase<T>*>(mid->nativehandle.get())->NonVirtualInstanceInvoke(ENV::FromJNIEnv(env), obj, param, jnivm::impl::MethodHandleBase<T>{});
         } catch (...) {
-- 
2.43.0


From e5791094d85e906e3bba33447e2ace60a5192efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:05 +0000
Subject: [PATCH 11/20] fix: registering a native method again kept the
 previous function effective

---
 src/jnivm/vm.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/jnivm/vm.cpp b/src/jnivm/vm.cpp
index 810f4c5..d3c800c 100644
--- a/src/jnivm/vm.cpp
+++ b/src/jnivm/vm.cpp
@@ -277,11 +277,19 @@ jint RegisterNatives(JNIEnv *env, jclass c, const JNINativeMethod *method, jint
 			ss << "Class \"" << clazz->nativeprefix << "\" registred native method: " << method->name << " signature: " << method->signature;
 			LOG("JNIVM", "%s", ss.str().data());
 #endif
-			auto m = std::make_shared<Method>();
-			m->name = method->name;
-			m->signature = method->signature;
-			m->native = method->fnPtr;
-			clazz->methods.push_back(m);
+			auto old = std::find_if(clazz->methods.begin(), clazz->methods.end(), [method](std::shared_ptr<Method>& m) {
+				return m->native && m->name == method->name && m->signature == method->signature;
+			});
+			if(old != clazz->methods.end()) {
+				// Registered again, the new function replaces the previous one
+				(*old)->native = method->fnPtr;
+			} else {
+				auto m = std::make_shared<Method>();
+				m->name = method->name;
+				m->signature = method->signature;
+				m->native = method->fnPtr;
+				clazz->methods.push_back(m);
+			}
 			method++;
 		}
 	}
-- 
2.43.0


From 972605858348a90d76ca40281b5b809d8bb8b94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:05 +0000
Subject: [PATCH 12/20] fix: hooking a method reused the native method of that
 name, which hid the hook

---
 include/jnivm/hookManager.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/jnivm/hookManager.h b/include/jnivm/hookManager.h
index e489f96..5c2e47f 100644
--- a/include/jnivm/hookManager.h
+++ b/include/jnivm/hookManager.h
@@ -49,7 +49,7 @@ namespace jnivm {
             auto ccl =
                     std::find_if(cl->methods.begin(), cl->methods.end(),
                                             [&id, &ssig](std::shared_ptr<Method> &m) {
-                                                return m->_static == isStatic && m->name == id && m->signature == ssig;
+                                                return m->_static == isStatic && !m->native && m->name == id && m->signature == ssig;
                                             });
             std::shared_ptr<Method> method;
             if (ccl != cl->methods.end()) {
@@ -70,7 +70,7 @@ namespace jnivm {
             auto ccl =
                     std::find_if(cl->methods.begin(), cl->methods.end(),
                                             [&id, &ssig](std::shared_ptr<Method> &m) {
-                                                return m->_static == isStatic && m->name == id && m->signature == ssig;
+                                                return m->_static == isStatic && !m->native && m->name == id && m->signature == ssig;
                                             });
             std::shared_ptr<Method> method;
             if (ccl != cl->methods.end()) {
-- 
2.43.0


From 2deae979fdcd69f97537920efb232cb3a9230000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:55 +0000
Subject: [PATCH 13/20] fix: destroy a detached env after releasing the vm lock

DetachCurrentThread erased the thread's env while holding the VM lock. Destroying
the env drops its local references, and a destructor of such an object which
calls back into the vm (GetEnv, AttachCurrentThread, DeleteGlobalRef, ...)
blocked forever on the lock its own thread was holding.
---
 src/jnivm/vm.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jnivm/vm.cpp b/src/jnivm/vm.cpp
index d3c800c..7db0b65 100644
--- a/src/jnivm/vm.cpp
+++ b/src/jnivm/vm.cpp
@@ -509,10 +509,13 @@ jnivm::VM::VM(bool skipInit, bool ReturnNull) : ninterface(ReturnNull ? GetNativ
 			[](JavaVM *vm) -> jint {
 #ifdef EnableJNIVMGC
 				auto&& nvm = *VM::FromJavaVM(vm);
+				// Destroy the env after releasing the lock, destructors of local references may use the vm
+				std::shared_ptr<ENV> env;
 				std::lock_guard<std::mutex> lock(nvm.mtx);
 				auto fe = nvm.jnienvs.end();
 				auto f = nvm.jnienvs.find(pthread_self());
 				if(f != fe) {
+					env = std::move(f->second);
 					nvm.jnienvs.erase(f);
 				}
 #endif
-- 
2.43.0


From 6ac9d22c6e129c3648781150fab0b4f77719cb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:12 +0000
Subject: [PATCH 14/20] fix: never create a denied class for a signature or a
 default value

---
 src/jnivm/internal/field.cpp     | 3 ++-
 src/jnivm/internal/findclass.cpp | 6 ++----
 src/jnivm/internal/method.cpp    | 8 ++++----
 3 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/jnivm/internal/field.cpp b/src/jnivm/internal/field.cpp
index e2e44cd..a58de11 100644
--- a/src/jnivm/internal/field.cpp
+++ b/src/jnivm/internal/field.cpp
@@ -11,7 +11,7 @@ using namespace jnivm;
 template<bool isStatic, bool ReturnNull, bool trace>
 jfieldID jnivm::GetFieldID(JNIEnv *env, jclass cl_, const char *name, const char *type) {
     auto cl = JNITypes<std::shared_ptr<Class>>::JNICast(ENV::FromJNIEnv(env), cl_);
-    std::lock_guard<std::mutex> lock(cl->mtx);
+    std::unique_lock<std::mutex> lock(cl->mtx);
     std::string &classname = cl->name;
 
     auto cur = cl;
@@ -52,6 +52,7 @@ jfieldID jnivm::GetFieldID(JNIEnv *env, jclass cl_, const char *name, const char
         next->name = std::move(sname);
         next->type = std::move(ssig);
         next->_static = isStatic;
+        lock.unlock();
 #ifdef JNI_DEBUG
         Declare(env, next->type.data());
 #endif
diff --git a/src/jnivm/internal/findclass.cpp b/src/jnivm/internal/findclass.cpp
index f58537b..1c91545 100644
--- a/src/jnivm/internal/findclass.cpp
+++ b/src/jnivm/internal/findclass.cpp
@@ -109,10 +109,8 @@ void jnivm::Declare(JNIEnv *env, const char *signature) {
 		if (*cur == 'L') {
 			auto cend = std::find(cur, end, ';');
 			std::string classpath(cur + 1, cend);
-			{
-				std::lock_guard<std::mutex> lock(ENV::FromJNIEnv(env)->GetVM()->mtx);
-				InternalFindClass(ENV::FromJNIEnv(env), classpath.data());
-			}
+			// Ask the function table, the vm might refuse to create this class
+			env->DeleteLocalRef(env->FindClass(classpath.data()));
 			cur = cend;
 		}
 	}
diff --git a/src/jnivm/internal/method.cpp b/src/jnivm/internal/method.cpp
index 81ac27e..42aa653 100644
--- a/src/jnivm/internal/method.cpp
+++ b/src/jnivm/internal/method.cpp
@@ -125,10 +125,10 @@ template<> jobject jnivm::defaultVal(ENV* env, std::string signature) {
             }
             
         } else if(signature[off + 1] == 'L' && signature[signature.size() - 1] == ';'){
-            std::shared_ptr<Class> c;
-            {
-                std::lock_guard<std::mutex> guard(env->GetVM()->mtx);
-                c = env->GetClass(signature.substr(off + 2, signature.size() - (off + 3)).data());
+            // Ask the function table, the vm might refuse to create this class
+            auto c = JNITypes<std::shared_ptr<Class>>::JNICast(env, env->GetJNIEnv()->FindClass(signature.substr(off + 2, signature.size() - (off + 3)).data()));
+            if(!c) {
+                return nullptr;
             }
             if(c->Instantiate) {
 #ifdef JNI_TRACE
-- 
2.43.0


From d11631614f472956e846f61c817c86d478472a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:31 +0000
Subject: [PATCH 15/20] fix: default values of array methods are of the
 declared array class

---
 src/jnivm/internal/method.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/jnivm/internal/method.cpp b/src/jnivm/internal/method.cpp
index 42aa653..62f88d5 100644
--- a/src/jnivm/internal/method.cpp
+++ b/src/jnivm/internal/method.cpp
@@ -116,7 +116,11 @@ template<> jobject jnivm::defaultVal(ENV* env, std::string signature) {
                 return env->GetJNIEnv()->NewDoubleArray(0);
             case 'L':
             case '[':
-                return env->GetJNIEnv()->NewObjectArray(0, env->GetJNIEnv()->FindClass(signature[off + 2] == 'L' && signature[signature.size() - 1] == ';' ? signature.substr(off + 3, signature.size() - (off + 4)).data() : &signature.data()[off + 1]), nullptr);
+            {
+                // The element class, array classes are named by their descriptor
+                auto c = env->GetJNIEnv()->FindClass(signature[off + 2] == 'L' && signature[signature.size() - 1] == ';' ? signature.substr(off + 3, signature.size() - (off + 4)).data() : &signature.data()[off + 2]);
+                return c ? env->GetJNIEnv()->NewObjectArray(0, c, nullptr) : nullptr;
+            }
             default:
 #ifdef JNI_TRACE
             LOG("JNIVM", "Constructing array=`%s` failed unknown type", &signature.data()[off + 1]);
-- 
2.43.0


From b2b1a6bfae5b14ca0ba1547456257fc0664dd3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:12 +0000
Subject: [PATCH 16/20] fix: a cleared weak reference is treated like null by
 functions accepting null

Length, character, element and class queries only tested the handle for null, but
resolving a weak reference whose object is gone yields null too.
---
 src/jnivm/internal/array.cpp  |  7 +++++--
 src/jnivm/internal/string.cpp | 20 +++++++++++++++-----
 src/jnivm/vm.cpp              |  6 ++++--
 3 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/jnivm/internal/array.cpp b/src/jnivm/internal/array.cpp
index 7b958d6..45b25f8 100644
--- a/src/jnivm/internal/array.cpp
+++ b/src/jnivm/internal/array.cpp
@@ -5,7 +5,9 @@
 using namespace jnivm;
 
 jsize jnivm::GetArrayLength(JNIEnv *env, jarray a) {
-    return a ? JNITypes<std::shared_ptr<Array<void>>>::JNICast(ENV::FromJNIEnv(env), a)->getSize() : 0;
+    // null for a cleared weak reference too
+    auto arr = JNITypes<std::shared_ptr<Array<void>>>::JNICast(ENV::FromJNIEnv(env), a);
+    return arr ? arr->getSize() : 0;
 }
 jobjectArray jnivm::NewObjectArray(JNIEnv * env, jsize length, jclass c, jobject init) {
     auto cl0 = JNITypes<std::shared_ptr<Class>>::JNICast(ENV::FromJNIEnv(env), c);
@@ -48,7 +50,8 @@ T *jnivm::GetArrayElements(JNIEnv *env, typename JNITypes<T>::Array a, jboolean
     if (iscopy) {
         *iscopy = false;
     }
-    return a ? JNITypes<std::shared_ptr<Array<T>>>::JNICast(ENV::FromJNIEnv(env), a)->getArray() : nullptr;
+    auto arr = JNITypes<std::shared_ptr<Array<T>>>::JNICast(ENV::FromJNIEnv(env), a);
+    return arr ? arr->getArray() : nullptr;
 }
 
 template <class T>
diff --git a/src/jnivm/internal/string.cpp b/src/jnivm/internal/string.cpp
index 0504e7b..7d918bd 100644
--- a/src/jnivm/internal/string.cpp
+++ b/src/jnivm/internal/string.cpp
@@ -14,8 +14,9 @@ jstring jnivm::NewString(JNIEnv *env, const jchar * str, jsize size) {
     return JNITypes<std::shared_ptr<String>>::ToJNIType(ENV::FromJNIEnv(env), std::make_shared<String>(ss.str()));
 };
 jsize jnivm::GetStringLength(JNIEnv *env, jstring str) {
-    if(str) {
-        std::shared_ptr<std::string> cstr = JNITypes<std::shared_ptr<String>>::JNICast(ENV::FromJNIEnv(env), str);
+    // null for a cleared weak reference too
+    std::shared_ptr<std::string> cstr = JNITypes<std::shared_ptr<String>>::JNICast(ENV::FromJNIEnv(env), str);
+    if(cstr) {
         size_t count = 0;
         jsize length = 0;
         auto cur = cstr->data(), end = cur + cstr->length();
@@ -54,8 +55,9 @@ jstring jnivm::NewStringUTF(JNIEnv * env, const char *str) {
     return JNITypes<std::shared_ptr<String>>::ToJNIType(ENV::FromJNIEnv(env), std::make_shared<String>(str ? str : ""));
 };
 jsize jnivm::GetStringUTFLength(JNIEnv *env, jstring str) {
-    if(str) {
-        auto length = JNITypes<std::shared_ptr<String>>::JNICast(ENV::FromJNIEnv(env), str)->length();
+    auto cstr = JNITypes<std::shared_ptr<String>>::JNICast(ENV::FromJNIEnv(env), str);
+    if(cstr) {
+        auto length = cstr->length();
         if(length > static_cast<size_t>(std::numeric_limits<jsize>::max())) {
             throw std::runtime_error("String to long, to fit in jsize");
         } else {
@@ -67,7 +69,8 @@ jsize jnivm::GetStringUTFLength(JNIEnv *env, jstring str) {
 const char *jnivm::GetStringUTFChars(JNIEnv * env, jstring str, jboolean *copy) {
     if (copy)
         *copy = false;
-    return str ? JNITypes<std::shared_ptr<String>>::JNICast(ENV::FromJNIEnv(env), str)->data() : "";
+    auto cstr = JNITypes<std::shared_ptr<String>>::JNICast(ENV::FromJNIEnv(env), str);
+    return cstr ? cstr->data() : "";
 };
 void jnivm::ReleaseStringUTFChars(JNIEnv * env, jstring str, const char * cstr) {
     // Never copied, never free
@@ -75,6 +78,9 @@ void jnivm::ReleaseStringUTFChars(JNIEnv * env, jstring str, const char * cstr)
 
 void jnivm::GetStringRegion(JNIEnv *env, jstring str, jsize start, jsize length, jchar * buf) {
     std::shared_ptr<std::string> cstr = JNITypes<std::shared_ptr<String>>::JNICast(ENV::FromJNIEnv(env), str);
+    if(!cstr) {
+        return;
+    }
     jchar* bend = buf + length;
     auto cur = cstr->data(), end = cur + cstr->length();
     while(start) {
@@ -91,6 +97,10 @@ void jnivm::GetStringRegion(JNIEnv *env, jstring str, jsize start, jsize length,
 
 void jnivm::GetStringUTFRegion(JNIEnv *env, jstring str, jsize start, jsize len, char * buf) {
     std::shared_ptr<std::string> cstr = JNITypes<std::shared_ptr<String>>::JNICast(ENV::FromJNIEnv(env), str);
+    if(!cstr) {
+        *buf = '\0';
+        return;
+    }
     char * bend = buf + len;
     auto cur = cstr->data(), end = cur + cstr->length();
     while(start) {
diff --git a/src/jnivm/vm.cpp b/src/jnivm/vm.cpp
index 7db0b65..ff5a7c6 100644
--- a/src/jnivm/vm.cpp
+++ b/src/jnivm/vm.cpp
@@ -250,10 +250,12 @@ jobject AllocObject(JNIEnv *env, jclass cl) {
 };
 
 jclass GetObjectClass(JNIEnv *env, jobject jo) {
-	return jo ? JNITypes<std::shared_ptr<jnivm::Class>>::ToJNIType(ENV::FromJNIEnv(env), JNITypes<std::shared_ptr<jnivm::Object>>::JNICast(ENV::FromJNIEnv(env), jo)->getClassInternal(ENV::FromJNIEnv(env))) : env->FindClass("Invalid");
+	// null for a cleared weak reference too
+	auto o = JNITypes<std::shared_ptr<jnivm::Object>>::JNICast(ENV::FromJNIEnv(env), jo);
+	return o ? JNITypes<std::shared_ptr<jnivm::Class>>::ToJNIType(ENV::FromJNIEnv(env), o->getClassInternal(ENV::FromJNIEnv(env))) : env->FindClass("Invalid");
 };
 jboolean IsInstanceOf(JNIEnv *env, jobject jo, jclass cl) {
-	return jo && IsAssignableFrom(env, GetObjectClass(env, jo), cl);
+	return JNITypes<std::shared_ptr<jnivm::Object>>::JNICast(ENV::FromJNIEnv(env), jo) && IsAssignableFrom(env, GetObjectClass(env, jo), cl);
 };
 
 #include "internal/method.h"
-- 
2.43.0


From 02c29fb442b106a3df6c38c25c6c2a1546e15792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:05 +0000
Subject: [PATCH 17/20] fix: looking up an unregistered base class leaves no
 empty entry in the type table

---
 include/jnivm/extends.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/jnivm/extends.h b/include/jnivm/extends.h
index 112f490..fe0f10a 100644
--- a/include/jnivm/extends.h
+++ b/include/jnivm/extends.h
@@ -16,7 +16,12 @@ namespace jnivm {
             using ArrayBaseType = ArrayBase<T, BaseClasses...>;
             static std::vector<std::shared_ptr<Class>> GetBaseClasses(ENV* env) {
                 std::lock_guard<std::mutex> lock(env->GetVM()->mtx);
-                std::vector<std::shared_ptr<Class>> ret = { env->GetVM()->typecheck[typeid(BaseClasses)]... };
+                auto&& typecheck = env->GetVM()->typecheck;
+                auto lookup = [&typecheck](const std::type_info& type) {
+                    auto f = typecheck.find(type);
+                    return f != typecheck.end() ? f->second : std::shared_ptr<Class>();
+                };
+                std::vector<std::shared_ptr<Class>> ret = { lookup(typeid(BaseClasses))... };
 #ifndef NDEBUG
                 for(size_t i = 0, size = ret.size(); i < size; ++i) {
                     if(!ret[i]) {
-- 
2.43.0


From 24cb655c966052ed94d2421951fa04beb17bf0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:55 +0000
Subject: [PATCH 18/20] fix: the default value of a method returning a boolean
 array is an empty array like for every other element type

---
 src/jnivm/internal/method.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jnivm/internal/method.cpp b/src/jnivm/internal/method.cpp
index 62f88d5..cfafe6f 100644
--- a/src/jnivm/internal/method.cpp
+++ b/src/jnivm/internal/method.cpp
@@ -100,6 +100,8 @@ template<> jobject jnivm::defaultVal(ENV* env, std::string signature) {
 #endif
             switch (signature[off + 2])
             {
+            case 'Z':
+                return env->GetJNIEnv()->NewBooleanArray(0);
             case 'B':
                 return env->GetJNIEnv()->NewByteArray(0);
             case 'S':
-- 
2.43.0


From 4fdb6438262221ae20ec5e41f2996614d05658ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:53 +0000
Subject: [PATCH 19/20] fix: an object array seen as an array of any class its
 elements extend checks and stores the element type

---
 include/jnivm/array.h | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/include/jnivm/array.h b/include/jnivm/array.h
index d8782ad..896db38 100644
--- a/include/jnivm/array.h
+++ b/include/jnivm/array.h
@@ -254,7 +254,28 @@ namespace jnivm {
             }
         };
 
-        template<class T, class...Y> class ArrayBase : public ArrayBaseImpl<T, std::tuple<Y...>, Y...> {
+        // Every class the given classes extend, not only the direct bases
+        template<class T, class Base, class Done, class...Y> struct ArrayBaseResolver;
+
+        template<class T, class Base, class...Done> struct ArrayBaseResolver<T, Base, std::tuple<Done...>> {
+            using Type = ArrayBaseImpl<T, Base, Done...>;
+        };
+
+        template<class T, class Base, class...Done, class...Y> struct ArrayBaseResolver<T, Base, std::tuple<Done...>, Object, Y...> : ArrayBaseResolver<T, Base, std::tuple<Done..., Object>, Y...> {
+
+        };
+
+        template<class T, class Base, class Done, class ArrayBaseType, class...Y> struct ArrayBaseResolverBases;
+
+        template<class T, class Base, class Done, class B, class...Bases, class...Y> struct ArrayBaseResolverBases<T, Base, Done, ArrayBase<B, Bases...>, Y...> : ArrayBaseResolver<T, Base, Done, Y..., Bases...> {
+
+        };
+
+        template<class T, class Base, class...Done, class B, class...Y> struct ArrayBaseResolver<T, Base, std::tuple<Done...>, B, Y...> : ArrayBaseResolverBases<T, Base, std::tuple<Done..., B>, typename B::template ArrayBaseType<B>, Y...> {
+
+        };
+
+        template<class T, class...Y> class ArrayBase : public ArrayBaseResolver<T, std::tuple<Y...>, std::tuple<>, Y...>::Type {
             
         };
     }
-- 
2.43.0


From 6be1cef21384565b23a139cd40c4e90d43b63e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:32 +0000
Subject: [PATCH 20/20] fix: copying an array copies its storage instead of
 sharing it between two owners

---
 include/jnivm/array.h | 43 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/include/jnivm/array.h b/include/jnivm/array.h
index 896db38..7a302c8 100644
--- a/include/jnivm/array.h
+++ b/include/jnivm/array.h
@@ -1,5 +1,6 @@
 #pragma once
 #include "object.h"
+#include <algorithm>
 #include <cstring>
 #include <string>
 #include <vector>
@@ -22,9 +23,16 @@ namespace jnivm {
         protected:
             Array() {}
             Array(void* data, jsize length) : data(data), length(length) {}
+            // The storage belongs to the typed array, only it can copy it
+            Array(const Array & other) : Object(other), length(other.length) {}
+            Array & operator=(const Array & other) = delete;
             void setArray(void* data) {
                 this->data = data;
             }
+            void swapArray(Array & other) {
+                std::swap(data, other.data);
+                std::swap(length, other.length);
+            }
         public:
             using Type = void;
             inline void* getArray() {
@@ -67,6 +75,21 @@ namespace jnivm {
 
             Array(T* data, jsize length) : Array(data, length, true) {}
 
+            Array(const Array & other) : Array<void>(other) {
+                setArray(new T[getSize()]);
+                if(getSize() > 0) {
+                    memcpy(getArray(), other.getArray(), sizeof(T) * getSize());
+                }
+            }
+
+            Array & operator=(const Array & other) {
+                Array copy(other);
+                copy.swapArray(*this);
+                std::swap(owner, copy.owner);
+                Object::operator=(other);
+                return *this;
+            }
+
             virtual ~Array() {
                 if(owner) {
                     delete[] getArray();
@@ -176,6 +199,16 @@ namespace jnivm {
         public:
             Array() : Array<void>(nullptr, 0) {}
             Array(jsize size) : Array<void>(new std::shared_ptr<Object>[size], size) {}
+            Array(const Array & other) : Array<void>(other) {
+                setArray(new std::shared_ptr<Object>[getSize()]);
+                std::copy_n((std::shared_ptr<Object>*)other.getArray(), getSize(), (std::shared_ptr<Object>*)getArray());
+            }
+            Array & operator=(const Array & other) {
+                Array copy(other);
+                copy.swapArray(*this);
+                Object::operator=(other);
+                return *this;
+            }
             inline Arrayguard<Object, false> operator[](jint i) {
                 return { *this, i };
             }
@@ -204,6 +237,16 @@ namespace jnivm {
             //using Type = T;
             Array(jsize length) : Array<void>(new std::shared_ptr<Y>[length], length) {}
             Array() : Array<void>(nullptr, 0) {}
+            Array(const Array & other) : Array<void>(other) {
+                Array<void>::setArray(new std::shared_ptr<Y>[Array<void>::getSize()]);
+                std::copy_n((std::shared_ptr<Y>*)other.Array<void>::getArray(), Array<void>::getSize(), (std::shared_ptr<Y>*)Array<void>::getArray());
+            }
+            Array & operator=(const Array & other) {
+                Array copy(other);
+                copy.swapArray(*this);
+                Object::operator=(other);
+                return *this;
+            }
 
             inline Arrayguard<Y, false> operator[](jint i) {
                 return { *this, i };
-- 
2.43.0

