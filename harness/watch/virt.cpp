#include "watch.hpp"
using L = mm::LifetimeWatcher; using R = mm::RelocationWatcher;
template <typename... W> OpsPtr mk(const char* n, bool first) { return std::make_unique<Ops<mm::Watched<VirtualBase, W...>, VirtualBase>>(n, first); }
OpsPtr virtL() { return mk<L>("Watched<Virtual,Lifetime>", false); }
OpsPtr virtR() { return mk<R>("Watched<Virtual,Relocation>", true); }
OpsPtr virtRL() { return mk<R, L>("Watched<Virtual,Relocation,Lifetime>", true); }
OpsPtr virtLR() { return mk<L, R>("Watched<Virtual,Lifetime,Relocation>", false); }
