// instantiates hook registration for every hook kind; the hk_* functions stand for the user's hooks, their names spell
// kind, receiver parameters, argument letters and result letter
#include <jnivm.h>
using namespace jnivm;
namespace witness {
struct Thing : Object {
    jboolean z; jbyte b; jchar c; jshort s; jint i; jlong j; jfloat f; jdouble d; std::shared_ptr<Thing> l;
    static jboolean sz; static jbyte sb; static jchar sc; static jshort ss; static jint si; static jlong sj; static jfloat sf; static jdouble sd; static std::shared_ptr<Thing> sl;
    void mv(jboolean, jbyte, jchar, jshort, jint, jlong, jfloat, jdouble, std::shared_ptr<Thing>);
    jboolean mz(jint, jlong); jbyte mb(jlong, jint); jchar mc(jdouble, jint); jshort ms(jint, jdouble); jint mi(jfloat, jlong); jlong mj(); jfloat mf(jboolean, jint); jdouble md(jbyte, jlong); std::shared_ptr<Thing> ml(std::shared_ptr<Thing>, jint);
    jint me(ENV*, jint, jlong); jint mn(JNIEnv*, jlong, jint); jint mk(jint, jlong) const; void env(JNIEnv*, jboolean, jbyte, jchar, jshort, jint, jlong, jfloat, jdouble, std::shared_ptr<Thing>); void put(jint); void putn(JNIEnv*, jlong); void putl(std::shared_ptr<Thing>);
};
using L = std::shared_ptr<Thing>; using M = std::shared_ptr<String>;
#define Z jboolean
#define B jbyte
#define C jchar
#define S jshort
#define I jint
#define J jlong
#define F jfloat
#define D jdouble
#define V void
#define O jobject
#define LAM(ret, name, par, arg) ret name par; inline auto l_##name() { return [] par -> ret { return name arg; }; }
extern "C++" {
#define ALLP Z a, B b, C c, S d, I e, J f, F g, D h, L i
#define ALLA a, b, c, d, e, f, g, h, i
// static functions
LAM(V, hk_sf__ZBCSIJFDL_V, (ALLP), (ALLA))
LAM(V, hk_sf_n_ZBCSIJFDL_V, (JNIEnv*n, ALLP), (n, ALLA))
LAM(V, hk_sf_e_ZBCSIJFDL_V, (ENV*n, ALLP), (n, ALLA))
LAM(V, hk_sf_c_ZBCSIJFDL_V, (Class*k, ALLP), (k, ALLA))
LAM(V, hk_sf_k_ZBCSIJFDL_V, (jclass k, ALLP), (k, ALLA))
LAM(V, hk_sf_nc_ZBCSIJFDL_V, (JNIEnv*n, Class*k, ALLP), (n, k, ALLA))
LAM(V, hk_sf_ec_ZBCSIJFDL_V, (ENV*n, Class*k, ALLP), (n, k, ALLA))
LAM(V, hk_sf_nk_ZBCSIJFDL_V, (JNIEnv*n, jclass k, ALLP), (n, k, ALLA))
LAM(V, hk_sf_ek_ZBCSIJFDL_V, (ENV*n, jclass k, ALLP), (n, k, ALLA))
LAM(Z, hk_sf__II_Z, (I a, I b), (a, b))
LAM(B, hk_sf__IJ_B, (I a, J b), (a, b))
LAM(C, hk_sf__JI_C, (J a, I b), (a, b))
LAM(S, hk_sf__DI_S, (D a, I b), (a, b))
LAM(I, hk_sf_ec_IJ_I, (ENV*n, Class*k, I a, J b), (n, k, a, b))
LAM(J, hk_sf_nk_FJ_J, (JNIEnv*n, jclass k, F a, J b), (n, k, a, b))
LAM(F, hk_sf__ZL_F, (Z a, L b), (a, b))
LAM(D, hk_sf__LZ_D, (L a, Z b), (a, b))
LAM(L, hk_sf__LLM_L, (L a, L b, M c), (a, b, c))
LAM(O, hk_sf__OO_O, (O a, O b), (a, b))
LAM(M, hk_sf_e_MI_M, (ENV*n, M a, I b), (n, a, b))
// instance functions
LAM(V, hk_if__ZBCSIJFDL_V, (ALLP), (ALLA))
LAM(V, hk_if_n_ZBCSIJFDL_V, (JNIEnv*n, ALLP), (n, ALLA))
LAM(V, hk_if_e_ZBCSIJFDL_V, (ENV*n, ALLP), (n, ALLA))
LAM(V, hk_if_t_ZBCSIJFDL_V, (Thing*t, ALLP), (t, ALLA))
LAM(V, hk_if_b_ZBCSIJFDL_V, (Object*t, ALLP), (t, ALLA))
LAM(V, hk_if_nt_ZBCSIJFDL_V, (JNIEnv*n, Thing*t, ALLP), (n, t, ALLA))
LAM(V, hk_if_et_ZBCSIJFDL_V, (ENV*n, Thing*t, ALLP), (n, t, ALLA))
LAM(V, hk_if_eb_ZBCSIJFDL_V, (ENV*n, Object*t, ALLP), (n, t, ALLA))
LAM(Z, hk_if_et_II_Z, (ENV*n, Thing*t, I a, I b), (n, t, a, b))
LAM(B, hk_if_t_IJ_B, (Thing*t, I a, J b), (t, a, b))
LAM(C, hk_if_b_JI_C, (Object*t, J a, I b), (t, a, b))
LAM(S, hk_if_nb_DI_S, (JNIEnv*n, Object*t, D a, I b), (n, t, a, b))
LAM(O, hk_if__IO_O, (I a, O b), (a, b))
LAM(I, hk_if__IJ_I, (I a, J b), (a, b))
LAM(J, hk_if_e_FJ_J, (ENV*n, F a, J b), (n, a, b))
LAM(F, hk_if_t_ZL_F, (Thing*t, Z a, L b), (t, a, b))
LAM(D, hk_if_t_LZ_D, (Thing*t, L a, Z b), (t, a, b))
LAM(L, hk_if_et_LLM_L, (ENV*n, Thing*t, L a, L b, M c), (n, t, a, b, c))
// getters and setters
#define ACC(X) \
LAM(X, hk_sg__##_##X, (), ()) LAM(X, hk_sg_ec__##X, (ENV*n, Class*k), (n, k)) \
LAM(X, hk_ig_t__##X, (Thing*t), (t)) LAM(X, hk_ig_et__##X, (ENV*n, Thing*t), (n, t)) \
LAM(V, hk_ss__##X##_V, (X a), (a)) LAM(V, hk_ss_ec_##X##_V, (ENV*n, Class*k, X a), (n, k, a)) \
LAM(V, hk_is_t_##X##_V, (Thing*t, X a), (t, a)) LAM(V, hk_is_et_##X##_V, (ENV*n, Thing*t, X a), (n, t, a))
ACC(Z) ACC(B) ACC(C) ACC(S) ACC(I) ACC(J) ACC(F) ACC(D) ACC(L)
LAM(I, hk_sg_n__I, (JNIEnv*n), (n)) LAM(I, hk_sg_k__I, (jclass k), (k)) LAM(I, hk_ig_n__I, (JNIEnv*n), (n)) LAM(I, hk_ig___I, (), ())
LAM(V, hk_ss_n_I_V, (JNIEnv*n, I a), (n, a)) LAM(V, hk_ss_k_I_V, (jclass k, I a), (k, a)) LAM(V, hk_is_n_I_V, (JNIEnv*n, I a), (n, a)) LAM(V, hk_is__I_V, (I a), (a))
}
#define REG(how, x) void reg_##x(ENV* e, Class* c, const std::string& id) { c->how(e, id, l_##x()); }
#define SF(x) REG(Hook, x)
#define IF(x) REG(HookInstanceFunction, x)
    SF(hk_sf__ZBCSIJFDL_V) SF(hk_sf_n_ZBCSIJFDL_V) SF(hk_sf_e_ZBCSIJFDL_V) SF(hk_sf_c_ZBCSIJFDL_V) SF(hk_sf_k_ZBCSIJFDL_V) SF(hk_sf_nc_ZBCSIJFDL_V) SF(hk_sf_ec_ZBCSIJFDL_V) SF(hk_sf_nk_ZBCSIJFDL_V) SF(hk_sf_ek_ZBCSIJFDL_V)
    SF(hk_sf__II_Z) SF(hk_sf__IJ_B) SF(hk_sf__JI_C) SF(hk_sf__DI_S) SF(hk_sf_ec_IJ_I) SF(hk_sf_nk_FJ_J) SF(hk_sf__ZL_F) SF(hk_sf__LZ_D) SF(hk_sf__LLM_L) SF(hk_sf__OO_O) SF(hk_sf_e_MI_M)

    IF(hk_if__ZBCSIJFDL_V) IF(hk_if_n_ZBCSIJFDL_V) IF(hk_if_e_ZBCSIJFDL_V) IF(hk_if_t_ZBCSIJFDL_V)  IF(hk_if_b_ZBCSIJFDL_V) IF(hk_if_nt_ZBCSIJFDL_V) IF(hk_if_et_ZBCSIJFDL_V)  IF(hk_if_eb_ZBCSIJFDL_V)
    IF(hk_if_et_II_Z) IF(hk_if_t_IJ_B)   IF(hk_if_b_JI_C) IF(hk_if_nb_DI_S) IF(hk_if__IO_O) IF(hk_if__IJ_I) IF(hk_if_e_FJ_J) IF(hk_if_t_ZL_F) IF(hk_if_t_LZ_D) IF(hk_if_et_LLM_L)

#define ACCH(X) \
REG(HookGetterFunction, hk_sg__##_##X) REG(HookGetterFunction, hk_sg_ec__##X) REG(HookInstanceGetterFunction, hk_ig_t__##X) REG(HookInstanceGetterFunction, hk_ig_et__##X) \
REG(HookSetterFunction, hk_ss__##X##_V) REG(HookSetterFunction, hk_ss_ec_##X##_V) REG(HookInstanceSetterFunction, hk_is_t_##X##_V) REG(HookInstanceSetterFunction, hk_is_et_##X##_V)
ACCH(Z) ACCH(B) ACCH(C) ACCH(S) ACCH(I) ACCH(J) ACCH(F) ACCH(D) ACCH(L)
REG(HookGetterFunction, hk_sg_n__I) REG(HookGetterFunction, hk_sg_k__I) REG(HookInstanceGetterFunction, hk_ig_n__I) REG(HookInstanceGetterFunction, hk_ig___I)
REG(HookSetterFunction, hk_ss_n_I_V) REG(HookSetterFunction, hk_ss_k_I_V) REG(HookInstanceSetterFunction, hk_is_n_I_V) REG(HookInstanceSetterFunction, hk_is__I_V)
#undef F
#undef Z
#undef B
#undef C
#undef S
#undef I
#undef J
#undef D
#undef V
#undef O
#define MEM(x) void reg_mem_##x(ENV* e, Class* c, const std::string& id) { c->Hook(e, id, &Thing::x); }
MEM(mv) MEM(mz) MEM(mb) MEM(mc) MEM(ms) MEM(mi) MEM(mj) MEM(mf) MEM(md) MEM(ml) MEM(me) MEM(mn) MEM(mk)
void reg_memv_n(ENV* e, Class* c, const std::string& id) { c->Hook(e, id, &Thing::env); }
MEM(z) MEM(b) MEM(c) MEM(s) MEM(i) MEM(j) MEM(f) MEM(d) MEM(l) MEM(sz) MEM(sb) MEM(sc) MEM(ss) MEM(si) MEM(sj) MEM(sf) MEM(sd) MEM(sl)
// plain functions
void reg_fp_ec(ENV* e, Class* c, const std::string& id) { c->Hook(e, id, &hk_sf_ec_IJ_I); }
void reg_fp_o(ENV* e, Class* c, const std::string& id) { c->Hook(e, id, &hk_sf__LLM_L); }
void reg_fp_t(ENV* e, Class* c, const std::string& id) { c->HookInstanceFunction(e, id, &hk_if_t_IJ_B); }
#define MSET(x) void reg_mset_##x(ENV* e, Class* c, const std::string& id) { c->HookInstanceSetterFunction(e, id, &Thing::x); }
MSET(put) MSET(putn) MSET(putl)
#define IPROP(x) void reg_iprop_##x(ENV* e, Class* c, const std::string& id) { c->HookInstanceProperty(e, id, &Thing::x); } void reg_ihook_##x(ENV* e, Class* c, const std::string& id) { c->HookInstance(e, id, &Thing::x); }
IPROP(i) IPROP(l) IPROP(si) IPROP(sl)
void reg_il_t(ENV* e, Class* c, const std::string& id) { c->HookInstance(e, id, l_hk_if_et_LLM_L()); }
void reg_il(ENV* e, Class* c, const std::string& id) { c->HookInstance(e, id, l_hk_if__IJ_I()); }
}
