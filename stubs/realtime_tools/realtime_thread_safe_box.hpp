#pragma once
#include <mutex>
#include <optional>
namespace realtime_tools { template<class T> class RealtimeThreadSafeBox { T v_{}; mutable std::mutex m_; public: RealtimeThreadSafeBox()=default; explicit RealtimeThreadSafeBox(const T&v):v_(v){} void set(const T&v){std::lock_guard<std::mutex> l(m_); v_=v;} bool try_set(const T&v){std::unique_lock<std::mutex> l(m_,std::try_to_lock); if(!l) return false; v_=v; return true;} void get(T & o) const {std::lock_guard<std::mutex> l(m_); o=v_;} T get() const {std::lock_guard<std::mutex> l(m_); return v_;} std::optional<T> try_get() const {return v_;} }; }
