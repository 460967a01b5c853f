// every way an array comes into being, is copied, indexed and viewed as an array of a base class
#include <jnivm.h>
using namespace jnivm;
namespace witness {
struct Base0 : Extends<Object> { int pad0[3]; };
struct Base1 : Extends<Base0> { int pad1[5]; };
struct Leaf : Extends<Base1> { int pad2[7]; };
struct Other : Extends<Base0> { int pad3[9]; };
std::shared_ptr<Array<Leaf>> leafs(jsize n) { return std::make_shared<Array<Leaf>>(n); }
std::shared_ptr<Array<Other>> others(jsize n) { return std::make_shared<Array<Other>>(n); }
std::shared_ptr<Array<String>> strings(jsize n) { return std::make_shared<Array<String>>(n); }
std::shared_ptr<Array<Array<jint>>> nested(jsize n) { return std::make_shared<Array<Array<jint>>>(n); }
std::shared_ptr<Array<Array<Leaf>>> nestedleafs(jsize n) { return std::make_shared<Array<Array<Leaf>>>(n); }
#define P(N, T) \
  void asize_##N(jsize n) { Array<T> a(n); } \
  void aempty_##N() { Array<T> a; } \
  void avec_##N(const std::vector<T>& v) { Array<T> a(v); } \
  void adata_##N(T* d, jsize n) { Array<T> a(d, n); } \
  void alent_##N(T* d, jsize n, bool c) { Array<T> a(d, n, c); } \
  void acopy_##N(const Array<T>& o) { Array<T> a(o); } \
  void aassignempty_##N(const Array<T>& o) { Array<T> a; a = o; } \
  void aassignsize_##N(jsize n, const Array<T>& o) { Array<T> a(n); a = o; } \
  void aassignlent_##N(T* d, jsize n, const Array<T>& o) { Array<T> a(d, n, false); a = o; } \
  void acopylent_##N(T* d, jsize n) { Array<T> o(d, n, false); Array<T> a(o); } \
  void aself_##N(jsize n) { Array<T> a(n); Array<T>& b = a; a = b; } \
  jsize alen_##N(const Array<T>& a) { return a.getSize(); } \
  T* aref_##N(Array<T>& a, jint i) { return &a[i]; } \
  const T* acref_##N(const Array<T>& a, jint i) { return &a[i]; } \
  T* aget_##N(Array<T>& a) { return a.getArray(); } \
  const T* acget_##N(const Array<T>& a) { return a.getArray(); }
P(Z, jboolean) P(B, jbyte) P(S, jshort) P(C, jchar) P(I, jint) P(J, jlong) P(F, jfloat) P(D, jdouble)
#define O(N, T) \
  void osize_##N(jsize n) { Array<T> a(n); } \
  void oempty_##N() { Array<T> a; } \
  void ocopy_##N(const Array<T>& o) { Array<T> a(o); } \
  void oassignempty_##N(const Array<T>& o) { Array<T> a; a = o; } \
  void oassignsize_##N(jsize n, const Array<T>& o) { Array<T> a(n); a = o; } \
  std::string osig_##N(ENV* e) { return JNITypes<Array<T>>::GetJNISignature(e); } \
  void oset_##N(Array<T>& a, jint i, std::shared_ptr<T> v) { a[i] = v; } \
  std::shared_ptr<T> oget_##N(const Array<T>& a, jint i) { return a[i]; }
O(Object, Object) O(Base0, Base0) O(Base1, Base1) O(Leaf, Leaf) O(String, String) O(Nested, Array<jint>)
}
