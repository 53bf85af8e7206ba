// Verification intrinsics. Interpreted symbolically by the verifier (engine.py/hooks.py) and natively by vc_rt.cpp
// (counterexample replay and bounded stand-in runs).
#ifndef VC_H
#define VC_H
#include <cstddef>
#include <cstdint>
#include <string>
extern "C" {
uint64_t vc_u64(const char*); uint32_t vc_u32(const char*); uint16_t vc_u16(const char*); uint8_t vc_u8(const char*);
int32_t vc_i32(const char*); int64_t vc_i64(const char*); bool vc_bool(const char*); double vc_f64(const char*);
uint64_t vc_in(const char*, uint64_t lo, uint64_t hi);  // arbitrary value in [lo, hi]
void* vc_opaque(const char*);                      // arbitrary pointer value, never dereferenced
uint32_t vc_choice(const char*, uint32_t n);       // case split over 0..n-1
void vc_assume(bool); void vc_assert(bool, const char*); void vc_cover(const char*); void vc_unreachable(const char*);
void* vc_alloc(size_t n, size_t align);            // symbolic base address, arbitrary contents
void* vc_malloc(size_t n); void* vc_zalloc(size_t n);
void vc_kill(void*); bool vc_is_dead(void*);
void vc_havoc(void*, size_t);
void vc_inv(bool (*)(), const char*); void vc_inv_clear();
uint64_t vc_heap_live();
bool vc_same_object(const void*, const void*);
bool vc_symbolic();
void vc_exit_path();
void vc_log(const char*, uint64_t);
bool vc_lock_held(const void*); void vc_lock(void*); void vc_unlock(void*);
void vc_guarded_by(void*, size_t, void*);
void vc_shared_atomic(void*, size_t, bool (*rely)(uint64_t, uint64_t), void*);
void vc_unshare(void*);
void vc_ghost_begin(); void vc_ghost_end();
void vc_on_lock(const void* mutex, void (*)());   // environment step (other threads) when this mutex is acquired
void vc_on_wait(void (*)());                       // environment step while a condition variable wait has released its mutex
uint64_t vc_notified(const void* cv); uint64_t vc_waits(); uint64_t vc_threads_started(); uint64_t vc_threads_joined();
void vc_string(std::string*, const char*);
bool vc_str_prefix(const std::string*, const std::string*);
bool vc_str_suffix(const std::string*, const std::string*);
bool vc_str_contains(const std::string*, const std::string*);
}
template<typename T> struct vc_storage { alignas(T) unsigned char b[sizeof(T)]; T* get() { return reinterpret_cast<T*>(b); } };
// a proof harness: VC_PROOF(property, name)
#define VC_PROOF(P, N) extern "C" void vcp_##P##_##N()
inline std::string vc_str(const char* n) { std::string s; vc_string(&s, n); return s; }
#endif
