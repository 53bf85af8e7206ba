prop = 'C19'
needs = 'two waiters and two signals before the first woken waiter runs'
breaks = 'a signal that finds the count already positive wakes nobody: a waiter sleeps although the semaphore is available'
edits = [('fairmq/tools/Semaphore.cxx', '    ++fCount;\n    lk.unlock();\n    fCv.notify_one();\n', '    ++fCount;\n    bool first = fCount == 1;\n    lk.unlock();\n    if (first) {\n        fCv.notify_one();\n    }\n')]
srcs = ['tools/Semaphore']
cpp = r'''
#include <fairmq/tools/Semaphore.h>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <thread>
using namespace fair::mq::tools;
using namespace std::chrono_literals;
int main()
{
    for (int i = 0; i < 300; ++i) {
        auto s = std::make_shared<SharedSemaphore>(); auto done = std::make_shared<std::atomic<int>>(0);
        for (int k = 0; k < 8; ++k) std::thread([s, done] { s->Wait(); ++*done; }).detach();
        std::this_thread::sleep_for(2ms);
        for (int k = 0; k < 8; ++k) s->Signal();
        for (int w = 0; w < 3000 && *done != 8; ++w) std::this_thread::sleep_for(1ms);
        if (*done != 8) { std::printf("only %d of 8 waiters were released\n", int(*done)); std::_Exit(1); }
    }
    std::_Exit(0);
}
'''
