//@ cxxflags -I/verif/vc/stubs_shm
#include <shmmsgs.h>
using fair::mq::RegionConfig; using fair::mq::RegionCallback; using fair::mq::RegionBulkCallback;
//@ assume C12 the message queue delivers each sent batch once and unchanged or refuses it (Boost.Interprocess message_queue)
//@ opt send env_steps=3
//@ opt receive env_steps=3
//@ opt receive_bulk env_steps=8
//@ bound receive_bulk at most 5 blocks per batch when a bulk callback is used
// ---- C12 sender: every iteration of the sender loop, entered in an arbitrary state, hands over a whole batch
static UnmanagedRegion* R; static RegionBlock* base; static size_t cap, n, entries; static bool taken, batchOpen; static size_t batchN; static size_t tag;
static RegionBlock tagged; static int phase, tries; static bool sentOk; static uint64_t* elems(size_t i) { return reinterpret_cast<uint64_t*>(base + i); }
static void setSize(size_t k) { R->fBlocksToFree._M_impl._M_finish = base + k; }
static void more() { size_t k = vc_in("blocks_waiting", 0, cap); vc_assume(k >= n); n = k; setSize(n); if (vc_bool("stop")) R->fStopAcks = true; }
static void onLock()
{
    vc_ghost_begin();
    ++entries;
    if (entries == 1) more();
    else {
        // the next iteration: nothing taken from the list may be lost
        size_t left = R->fBlocksToFree.size();
        vc_assert(left <= n, "the sender adds nothing to the list");
        if (left < n) { vc_assert(tries > 0, "blocks taken from the list are sent"); vc_assert(sentOk || R->fStopAcks, "a batch is given up only when the region is being closed"); if (sentOk) vc_cover("send:sent"); else vc_cover("send:dropped-at-close"); }
        else vc_assert(n == 0 && tries == 0, "waiting blocks are sent");
        vc_exit_path();
    }
    vc_ghost_end();
}
static void onWait() { vc_ghost_begin(); vc_assert(R->fBlocksToFree.size() == n && n < 256, "the sender does not sleep on a full batch"); more(); vc_ghost_end(); }
static bool onSend(const void* p, size_t bytes, unsigned)
{
    vc_ghost_begin();
    size_t k = bytes / sizeof(RegionBlock);
    vc_assert(!vc_lock_held(&R->fBlockMtx), "the queue is used without blocking the users of the region");
    vc_assert(bytes % sizeof(RegionBlock) == 0 && k > 0 && k <= 256, "whole blocks, at most a full batch");
    vc_assert(k == (n < 256 ? n : 256), "a full batch, or everything that waits");
    size_t left = R->fBlocksToFree.size();
    vc_assert(left == n - k && R->fBlocksToFree.data() == base, "exactly the blocks of the batch leave the list");
    vc_assert(!sentOk, "a batch is sent once");
    size_t i = vc_in("block_of_batch", 0, 255); vc_assume(i < k);
    const RegionBlock* b = static_cast<const RegionBlock*>(p) + i;
    vc_assert(b->fHandle == base[left + i].fHandle && b->fSize == base[left + i].fSize && b->fHint == base[left + i].fHint, "every block of the batch is one that left the list, unchanged");
    ++tries;
    if (vc_bool("stop_now")) R->fStopAcks = true;
    bool ok = vc_bool("queue_accepts"); sentOk = ok;
    if (tries == 2 && !ok) { vc_cover("send:retry"); vc_exit_path(); }   // a refused attempt leaves the state as before: induction
    vc_ghost_end();
    return ok;
}
VC_PROOF(C12, send)
{
    static vc_storage<UnmanagedRegion> s; R = s.get();
    cap = vc_in("capacity", 0, size_t(1) << 20); base = static_cast<RegionBlock*>(vc_alloc(cap * sizeof(RegionBlock), 16));
    new (&R->fBlockMtx) std::mutex; new (&R->fBlockSendCV) std::condition_variable; new (&R->fBlocksToFree) std::vector<RegionBlock>; const_cast<size_t&>(R->fAckBunchSize) = 256;
    new (&R->fName) std::string("region"); new (&R->fStopAcks) std::atomic<bool>(vc_bool("stopping"));
    new (&R->fQueue) std::unique_ptr<boost::interprocess::message_queue>(new boost::interprocess::message_queue(boost::interprocess::open_or_create, "q", 1024, 256 * sizeof(RegionBlock)));
    R->fBlocksToFree._M_impl._M_start = base; R->fBlocksToFree._M_impl._M_end_of_storage = base + cap; setSize(0); n = 0;
    entries = 0; tries = 0; sentOk = false;
    vc_on_lock(&R->fBlockMtx, onLock); vc_on_wait(onWait); vcshm::queueSend = onSend;
    vc_guarded_by(&R->fBlocksToFree, sizeof(R->fBlocksToFree), &R->fBlockMtx);
    R->SendAcks();
    vc_unshare(&R->fBlocksToFree);
    vc_assert(entries == 1 && R->fStopAcks, "the sender ends only when the region is being closed");
    vc_assert(n == 0 && tries == 0, "the sender ends only when nothing is left to send");
    vc_cover("send:end");
    vc_exit_path();
}
// ---- C12 receiver: every block of every received batch is reported once, in order
static RegionBlock* buf; static size_t inBatch, reported, received, polls; static bool stopSeen, lastWasLinger; static uint32_t linger; static char* regionMem;
static bool inOrder() { return reported <= inBatch; }
static bool onRecv(void* p, size_t bytes, size_t& got, int64_t ms)
{
    vc_ghost_begin();
    vc_assert(bytes == 256 * sizeof(RegionBlock), "room for a full batch");
    vc_assert(reported == inBatch, "every block of a received batch is reported");
    if (inBatch) { vc_cover("receive:next"); vc_exit_path(); }
    if (polls == 1 && !lastWasLinger) { vc_cover("receive:poll-again"); vc_exit_path(); }
    vc_assert(polls == 0, "after the last chance the receiver ends");
    ++polls;
    lastWasLinger = ms == int64_t(linger) && stopSeen;
    vc_assert(stopSeen ? ms == int64_t(linger) : (ms == 100 || (R->fStopAcks && ms == int64_t(linger))), "while the region is in use the queue is polled; at its end outstanding blocks get the linger time");
    if (!stopSeen && ms == int64_t(linger) && R->fStopAcks) lastWasLinger = true;
    bool ok = vc_bool("batch_arrives");
    if (ok) {
        // what the senders queued: arbitrary blocks
        buf = static_cast<RegionBlock*>(vc_alloc(vc_in("arrived", 6144, 8192), 16));
        if (!vc_symbolic()) for (int i = 0; i < 256; ++i) buf[i].fHandle &= 0xfffff;
        std::memcpy(p, buf, 256 * sizeof(RegionBlock));
        inBatch = received == 256 ? vc_in("blocks_in_batch", 1, 256) : 1 + vc_choice("blocks_in_batch", received); got = inBatch * sizeof(RegionBlock);
    }
    vc_ghost_end();
    return ok;
}
static void reportOne(void* p, size_t s, void* h)
{
    vc_ghost_begin();
    vc_assert(reported < inBatch, "only received blocks are reported");
    vc_assert(p == regionMem + buf[reported].fHandle && s == buf[reported].fSize && h == reinterpret_cast<void*>(buf[reported].fHint), "a block is reported with its own address, size and hint");
    ++reported;
    vc_ghost_end();
}
static void setupReceiver(size_t most)
{
    static vc_storage<UnmanagedRegion> s; R = s.get(); received = most; inBatch = reported = polls = 0;
    vcshm::regionSize = 1 << 20; vcshm::regionBase = regionMem = static_cast<char*>(vc_alloc(1 << 20, 4096));
    const_cast<size_t&>(R->fAckBunchSize) = 256; linger = vc_u32("linger"); R->fLinger = linger;
    stopSeen = vc_bool("stopping"); new (&R->fName) std::string("region"); new (&R->fStopAcks) std::atomic<bool>(stopSeen);
    new (&R->fRegion) boost::interprocess::mapped_region; R->fRegion.a = regionMem; R->fRegion.sz = 1 << 20;
    new (&R->fCallback) RegionCallback; new (&R->fBulkCallback) RegionBulkCallback;
    new (&R->fQueue) std::unique_ptr<boost::interprocess::message_queue>(new boost::interprocess::message_queue(boost::interprocess::open_or_create, "q", 1024, 256 * sizeof(RegionBlock)));
    vcshm::queueRecv = onRecv;
}
VC_PROOF(C12, receive)
{
    setupReceiver(256); R->fCallback = reportOne;
    vc_inv([]() -> bool { return reported <= inBatch; }, "reported in order");
    R->ReceiveAcks();
    vc_assert(reported == inBatch && stopSeen && polls == 1, "the receiver ends only at the end of the region, after the linger time");
    vc_cover("receive:end");
    vc_exit_path();
}
VC_PROOF(C12, receive_bulk)
{
    setupReceiver(5); bool both = vc_bool("both_callbacks"); if (both) R->fCallback = [](void*, size_t, void*) { vc_assert(false, "with a bulk callback blocks are not reported one by one as well"); };
    R->fBulkCallback = [](const std::vector<fair::mq::RegionBlock>& v) {
        vc_assert(v.size() == inBatch && reported == 0, "a batch is reported once, completely");
        for (auto& b : v) reportOne(b.ptr, b.size, b.hint);
    };
    R->ReceiveAcks();
    vc_assert(reported == inBatch && stopSeen && polls == 1, "the receiver ends only at the end of the region, after the linger time");
    vc_exit_path();
}
