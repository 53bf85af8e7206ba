// The shmem transport of /repo compiled against an in-process model of Boost.Interprocess (see stubs_shm/vcboost.h).
#ifndef SHMWORLD_H
#define SHMWORLD_H
#include <vc.h>
#include <vcboost.h>
#include <algorithm>
#include <any>
#include <condition_variable>
#include <deque>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <list>
#include <memory_resource>
#include <optional>
#include <random>
#include <sstream>
#include <thread>
#include <variant>
#include <sys/mman.h>
#define unordered_map vc_unordered_map
#define map vc_map
#include <fairmq/shmem/Common.h>
#include <fairmq/shmem/Message.h>
#include <fairmq/shmem/UnmanagedRegionImpl.h>
#ifndef VC_REAL_MONITOR
namespace vcshm { inline int cleanups = 0; inline std::string cleanupId; inline int removedObjects = 0, removedFiles = 0; }
namespace fair::mq::shmem {
// ghost contracts of functions defined in other translation units (each verified by its own harnesses)
std::string makeShmIdStr(const std::string& s) { return "id" + s; }
uint64_t makeShmIdUint64(const std::string&) { return 0x77; }
std::string makeShmIdStr(uint64_t) { return "77"; }
std::vector<std::pair<std::string, bool>> Monitor::Cleanup(const ShmId& i, bool) { ++vcshm::cleanups; vcshm::cleanupId = i.shmId; return {}; }
bool Monitor::RemoveObject(const std::string& n) { ++vcshm::removedObjects; bool a = vcshm::names.remove(n, vcshm::kObject); bool b = vcshm::names.remove(n, vcshm::kSegment); return a || b; }
bool Monitor::RemoveFileMapping(const std::string& n) { ++vcshm::removedFiles; return vcshm::names.remove(n, vcshm::kFile); }
bool Manager::SpawnShmMonitor(const std::string&) { return false; }
}
#endif
#endif
