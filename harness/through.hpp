// Futures completed by the final suspend of a coroutine (symmetric transfer) instead of a Promise.
#pragma once
#include "types.hpp"

#include <yaclib/async/future.hpp>
#include <yaclib/async/shared_future.hpp>
#include <yaclib/coro/await.hpp>
#include <yaclib/coro/future.hpp>
#include <yaclib/coro/shared_future.hpp>

namespace {

template <typename V>
yaclib::Future<V, vh::Err> Through(yaclib::Future<V, vh::Err> f) {
  vh::FnToken t;
  co_await Await(f);
  t.Touch();
  co_return std::move(f).Touch();
}
template <typename V>
[[maybe_unused]] yaclib::SharedFuture<V, vh::Err> ThroughShared(yaclib::SharedFuture<V, vh::Err> f) {
  vh::FnToken t;
  co_await Await(f);
  t.Touch();
  co_return yaclib::Result<V, vh::Err>{f.Touch()};
}
template <typename V>
[[maybe_unused]] yaclib::SharedFuture<V, vh::Err> ThroughShared(yaclib::Future<V, vh::Err> f) {
  vh::FnToken t;
  co_await Await(f);
  t.Touch();
  co_return std::move(f).Touch();
}

}  // namespace
