prop = 'C01'
needs = 'a buffer whose base address makes the padding maximal (the address after the bookkeeping bytes is already aligned)'
breaks = 'the user area of such a buffer reaches beyond the allocated block'
edits = [('fairmq/shmem/Common.h', 'return HdrPartSize() + alignment + size;', 'return HdrPartSize() + (alignment > 0 ? alignment - 1 : 0) + size; // at most alignment - 1 bytes of padding')]
cpp = r'''
#include <fairmq/shmem/Common.h>
#include <cstdio>
#include <cstdlib>
using namespace fair::mq::shmem;
int main()
{
    for (size_t alignment : {16u, 64u, 4096u}) for (size_t size : {1u, 100u, 5000u}) for (size_t base = 0; base < 4096; base += 2) {
        size_t full = ShmHeader::FullSize(size, alignment);
        char* mem = static_cast<char*>(aligned_alloc(4096, 20480));
        char* p = mem + base;
        ShmHeader::Construct(p, alignment);
        char* u = ShmHeader::UserPtr(p);
        if (u + size > p + full || reinterpret_cast<size_t>(u) % alignment) { std::printf("alignment %zu size %zu base %zu: user area ends %td bytes after the block\n", alignment, size, base, u + size - (p + full)); return 1; }
        free(mem);
    }
    return 0;
}
'''
