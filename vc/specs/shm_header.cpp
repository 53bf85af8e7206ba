// C01: layout of managed shared-memory buffers (ShmHeader).
#include <fairmq/shmem/Common.h>
#include <vc.h>
using namespace fair::mq::shmem;

static bool pow2(size_t a) { return a != 0 && (a & (a - 1)) == 0; }

struct Buf { char* p; size_t full, size, al; };
static Buf mk()
{
    Buf b;
    b.size = vc_u64("size");
    b.al = vc_u64("alignment");
    vc_assume(pow2(b.al));
    vc_assume(b.al <= 32768);
    vc_assume(b.size < (size_t(1) << 40));
    b.full = ShmHeader::FullSize(b.size, b.al);
    b.p = static_cast<char*>(vc_alloc(b.full, 2));
    return b;
}
// the constructed buffer: user area inside the block, aligned, disjoint from the header, refcount 1
VC_PROOF(C01, construct)
{
    Buf b = mk();
    ShmHeader::Construct(b.p, b.al);
    vc_cover("construct:done");
    char* u = ShmHeader::UserPtr(b.p);
    vc_assert(reinterpret_cast<uintptr_t>(u) % b.al == 0, "user pointer aligned as requested");
    vc_assert(u >= b.p && u + b.size <= b.p + b.full, "user area inside the allocation");
    vc_assert(ShmHeader::UserOffset(b.p) == size_t(u - b.p), "user offset equals distance to user pointer");
    vc_assert(ShmHeader::RefCount(b.p) == 1, "fresh buffer has exactly one owner");
    size_t i = vc_u64("i");
    vc_assume(i < b.size);
    unsigned char v = vc_u8("v");
    u[i] = static_cast<char>(v);
    vc_assert(ShmHeader::RefCount(b.p) == 1 && ShmHeader::UserPtr(b.p) == u, "writing user bytes leaves the header intact");
}
VC_PROOF(C01, refcount)
{
    Buf b = mk();
    ShmHeader::Construct(b.p, b.al);
    char* u = ShmHeader::UserPtr(b.p);
    uint16_t c = vc_u16("count");
    ShmHeader::RefCountPtr(b.p).store(c);
    vc_assert(ShmHeader::RefCount(b.p) == c, "count readable");
    uint16_t o = ShmHeader::IncrementRefCount(b.p);
    vc_assert(o == c && ShmHeader::RefCount(b.p) == uint16_t(c + 1), "increment returns previous and adds one");
    o = ShmHeader::DecrementRefCount(b.p);
    vc_assert(o == uint16_t(c + 1) && ShmHeader::RefCount(b.p) == c, "decrement returns previous and subtracts one");
    vc_assert(ShmHeader::UserPtr(b.p) == u && ShmHeader::UserOffset(b.p) == size_t(u - b.p), "counting leaves the layout alone");
    vc_cover("refcount:done");
}
