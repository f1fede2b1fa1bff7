#pragma once
#include <memory>
#include <string>
#include <vector>
#include <stdexcept>
#include <functional>
#include <map>
namespace pluginlib { struct PluginlibException : std::runtime_error { using std::runtime_error::runtime_error; }; struct LibraryLoadException : PluginlibException { using PluginlibException::PluginlibException; }; struct CreateClassException : PluginlibException { using PluginlibException::PluginlibException; };
template<class T> using UniquePtr = std::unique_ptr<T, std::function<void(T*)>>;
template<class T> class ClassLoader { public: ClassLoader(const std::string&, const std::string&){} static std::map<std::string,std::function<T*()>> & reg() { static std::map<std::string,std::function<T*()>> r; return r; }
 UniquePtr<T> createUniqueInstance(const std::string & n){ return UniquePtr<T>(createUnmanagedInstance(n), [](T*p){delete p;}); } std::shared_ptr<T> createSharedInstance(const std::string & n){ return std::shared_ptr<T>(createUnmanagedInstance(n)); } T* createUnmanagedInstance(const std::string & n){ auto it=reg().find(n); if (it==reg().end()) throw LibraryLoadException(n); return it->second(); } bool isClassAvailable(const std::string&n){return reg().count(n)>0;} std::vector<std::string> getDeclaredClasses(){return {};} }; }
