prop = 'C21'
needs = 'subscribing again under the same name'
breaks = 'a replaced callback stays connected: the subscriber is notified twice, and the old callback can never be removed'
edits = [('fairmq/EventManager.h', '            fConnections.at(connectionsKey).disconnect();\n            fConnections.erase(connectionsKey);\n        }\n        fConnections.insert', '            fConnections.erase(connectionsKey);\n        }\n        fConnections.insert')]
srcs = ['EventManager']
cpp = r'''
#include <fairmq/EventManager.h>
#include <cstdio>
using namespace fair::mq;
struct A : Event<int> {}; struct B : Event<int> {};

int main() { EventManager m; int x = 0, y = 0; m.Subscribe<A, int>("s", std::function<void(int, int)>([&](int, int) { ++x; })); m.Subscribe<A, int>("s", std::function<void(int, int)>([&](int, int) { ++y; })); m.Emit<A, int>(1, 2);
  std::printf("%d %d\n", x, y); return x != 0 || y != 1; }
'''
