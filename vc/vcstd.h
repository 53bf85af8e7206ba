// standard headers first, then FairMQ sees the container models of vcmap.h instead of the hash tables and trees of libstdc++
#ifndef VCSTD_H
#define VCSTD_H
#include <vc.h>
#include <algorithm>
#include <any>
#include <array>
#include <atomic>
#include <cassert>
#include <chrono>
#include <condition_variable>
#include <deque>
#include <exception>
#include <fstream>
#include <functional>
#include <future>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <memory_resource>
#include <mutex>
#include <numeric>
#include <optional>
#include <queue>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <string_view>
#include <thread>
#include <typeindex>
#include <unordered_map>
#include <unordered_set>
#include <variant>
#include <vector>
#include <boost/any.hpp>
#include <boost/core/demangle.hpp>
#include <boost/container/container_fwd.hpp>
#include <stubs_shm/vcmap.h>
#define unordered_map vc_unordered_map
#ifdef VC_UNORDERED   // the order of std::map does not matter to the contract
#define map vc_umap
#else
#define map vc_map
#endif
#define set vc_set
#define unordered_set vc_unordered_set
#endif
