#include "watch.hpp"
using L = mm::LifetimeWatcher; using R = mm::RelocationWatcher;
template <typename... W> OpsPtr mk(const char* n, bool first) { return std::make_unique<Ops<mm::Watched<PlainBase, W...>, PlainBase>>(n, first); }
OpsPtr plainL() { return mk<L>("Watched<Plain,Lifetime>", false); }
OpsPtr plainR() { return mk<R>("Watched<Plain,Relocation>", true); }
OpsPtr plainRL() { return mk<R, L>("Watched<Plain,Relocation,Lifetime>", true); }
OpsPtr plainLR() { return mk<L, R>("Watched<Plain,Lifetime,Relocation>", false); }
