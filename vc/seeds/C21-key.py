prop = 'C21'
needs = 'one subscriber with callbacks of two signatures for the same event'
breaks = 'subscriptions of the same event with different callback signatures replace each other'
edits = [('fairmq/EventManager.h', '    const std::type_index callback_type_index{\n        typeid(std::function<void(typename E::KeyType, Args...)>)};\n    const auto signalsKey = std::make_pair(event_type_index, callback_type_index);\n    const auto connectionsKey = std::make_pair(subscriber, signalsKey);\n', '    const std::type_index callback_type_index{\n        typeid(std::function<void(typename E::KeyType, Args...)>)};\n    const auto signalsKey = std::make_pair(event_type_index, callback_type_index);\n    const auto connectionsKey = std::make_pair(subscriber, std::make_pair(event_type_index, event_type_index));\n'), ('fairmq/EventManager.h', '        const auto connectionsKey = std::make_pair(subscriber, signalsKey);\n\n        std::lock_guard', '        const auto connectionsKey = std::make_pair(subscriber, std::make_pair(event_type_index, event_type_index));\n\n        std::lock_guard')]
srcs = ['EventManager']
cpp = r'''
#include <fairmq/EventManager.h>
#include <cstdio>
using namespace fair::mq;
struct A : Event<int> {}; struct B : Event<int> {};

int main() { EventManager m; int x = 0, y = 0; m.Subscribe<A, int>("s", std::function<void(int, int)>([&](int, int) { ++x; })); m.Subscribe<A, std::string>("s", std::function<void(int, std::string)>([&](int, std::string) { ++y; })); m.Emit<A, int>(1, 2); m.Emit<A, std::string>(1, "x");
  std::printf("%d %d\n", x, y); return x != 1 || y != 1; }
'''
