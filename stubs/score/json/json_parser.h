// Stand-in for the JSON value types (score_baselibs is not part of the repository).
#pragma once
#include "score/result/result.h"
#include <cstdint>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>
namespace score { namespace json {
enum class Error : std::int32_t { kUnknownError, kWrongType };
class ErrDomain final : public score::result::ErrorDomain { public: std::string_view MessageFor(const score::result::ErrorCode&) const noexcept override { return ""; } };
inline score::result::Error MakeError(const Error e, const std::string_view m = {}) noexcept { static const ErrDomain d{}; return {static_cast<std::int32_t>(e), d, m}; }
class Any;
class Object;
class List;
class Null {};
class Any
{
  public:
    enum class Kind { null, boolean, number, real, string, object, list };
    Any() noexcept = default;
    Any(Null) noexcept {}
    template <typename T, typename = std::enable_if_t<std::is_arithmetic<T>::value>>
    explicit Any(T v) noexcept
        : kind_{std::is_same<T, bool>::value ? Kind::boolean : std::is_floating_point<T>::value ? Kind::real : Kind::number},
          neg_{v < T{}}, num_{static_cast<std::uint64_t>(v)}, real_{static_cast<double>(v)} {}
    explicit Any(std::string s) : kind_{Kind::string}, str_{std::move(s)} {}
    explicit Any(std::string_view s) : kind_{Kind::string}, str_{s} {}
    explicit Any(const char* s) : kind_{Kind::string}, str_{s} {}
    inline Any(Object o);
    inline Any(List l);
    Any(Any&&) noexcept = default;
    Any& operator=(Any&&) noexcept = default;
    template <typename T, typename = std::enable_if_t<std::is_arithmetic<T>::value>>
    Any& operator=(T v) { *this = Any{v}; return *this; }
    Any& operator=(const std::string& s) { *this = Any{s}; return *this; }
    Any& operator=(std::string_view s) { *this = Any{s}; return *this; }
    inline Any& operator=(Object o);
    inline Any& operator=(List o);
    template <typename T, std::enable_if_t<std::is_arithmetic<T>::value, int> = 0>
    score::Result<T> As() const noexcept
    {
        if constexpr (std::is_same<T, bool>::value) { if (kind_ == Kind::boolean) return num_ != 0U; }
        else if constexpr (std::is_floating_point<T>::value) { if (kind_ == Kind::real || kind_ == Kind::number) return static_cast<T>(real_); }
        else if (kind_ == Kind::number)
        {
            const bool fits = neg_ ? (std::is_signed<T>::value && static_cast<std::int64_t>(num_) >= static_cast<std::int64_t>(std::numeric_limits<T>::min()))
                                   : num_ <= static_cast<std::uint64_t>(std::numeric_limits<T>::max());
            if (fits) return static_cast<T>(num_);
        }
        return score::MakeUnexpected(Error::kWrongType);
    }
    template <typename T, std::enable_if_t<std::is_same<T, std::string_view>::value, int> = 0>
    score::Result<T> As() const noexcept { if (kind_ == Kind::string) return std::string_view{str_}; return score::MakeUnexpected(Error::kWrongType); }
    template <typename T, std::enable_if_t<std::is_same<T, std::string>::value, int> = 0>
    score::Result<std::reference_wrapper<const std::string>> As() const noexcept { if (kind_ == Kind::string) return std::cref(str_); return score::MakeUnexpected(Error::kWrongType); }
    template <typename T, std::enable_if_t<std::is_same<T, Object>::value, int> = 0>
    score::Result<std::reference_wrapper<const Object>> As() const noexcept { if (kind_ == Kind::object) return std::cref(*obj_); return score::MakeUnexpected(Error::kWrongType); }
    template <typename T, std::enable_if_t<std::is_same<T, Object>::value, int> = 0>
    score::Result<std::reference_wrapper<Object>> As() noexcept { if (kind_ == Kind::object) return std::ref(*obj_); return score::MakeUnexpected(Error::kWrongType); }
    template <typename T, std::enable_if_t<std::is_same<T, List>::value, int> = 0>
    score::Result<std::reference_wrapper<const List>> As() const noexcept { if (kind_ == Kind::list) return std::cref(*list_); return score::MakeUnexpected(Error::kWrongType); }
    template <typename T, std::enable_if_t<std::is_same<T, List>::value, int> = 0>
    score::Result<std::reference_wrapper<List>> As() noexcept { if (kind_ == Kind::list) return std::ref(*list_); return score::MakeUnexpected(Error::kWrongType); }
  private:
    Kind kind_{Kind::null};
    bool neg_{false};
    std::uint64_t num_{0U};
    double real_{0.0};
    std::string str_{};
    std::unique_ptr<Object, void (*)(Object*)> obj_{nullptr, &Del};
    std::unique_ptr<List, void (*)(List*)> list_{nullptr, &DelL};
    static inline void Del(Object*);
    static inline void DelL(List*);
};
class Key
{
  public:
    Key(std::string s) : s_{std::move(s)} {}
    std::string_view GetAsStringView() const noexcept { return s_; }
    friend bool operator<(const Key& a, const Key& b) { return a.s_ < b.s_; }
    friend bool operator<(const Key& a, std::string_view b) { return a.s_ < b; }
    friend bool operator<(std::string_view a, const Key& b) { return a < b.s_; }
  private:
    std::string s_;
};
class Object
{
    using Map = std::map<Key, Any, std::less<>>;
  public:
    using iterator = Map::iterator;
    using const_iterator = Map::const_iterator;
    Any& operator[](std::string_view k) { auto it = m_.find(k); if (it == m_.end()) { it = m_.emplace(std::string{k}, Any{}).first; } return it->second; }
    const_iterator find(std::string_view k) const { return m_.find(k); }
    iterator find(std::string_view k) { return m_.find(k); }
    const_iterator begin() const { return m_.begin(); }
    const_iterator end() const { return m_.end(); }
    iterator begin() { return m_.begin(); }
    iterator end() { return m_.end(); }
    std::size_t size() const { return m_.size(); }
    bool empty() const { return m_.empty(); }
    template <typename K, typename V> auto insert(std::pair<K, V>&& p) { return m_.emplace(std::string{p.first}, Any{std::move(p.second)}); }
    template <typename K, typename V> auto emplace(K&& k, V&& v) { return m_.emplace(std::string{k}, Any{std::forward<V>(v)}); }
  private:
    Map m_{};
};
class List
{
  public:
    using iterator = std::vector<Any>::iterator;
    using const_iterator = std::vector<Any>::const_iterator;
    void push_back(Any a) { v_.push_back(std::move(a)); }
    template <typename T> void emplace_back(T&& a) { v_.emplace_back(std::forward<T>(a)); }
    const_iterator begin() const { return v_.begin(); }
    const_iterator end() const { return v_.end(); }
    iterator begin() { return v_.begin(); }
    iterator end() { return v_.end(); }
    std::size_t size() const { return v_.size(); }
    bool empty() const { return v_.empty(); }
    const Any& operator[](std::size_t i) const { return v_[i]; }
  private:
    std::vector<Any> v_{};
};
inline Any::Any(Object o) : kind_{Kind::object} { obj_.reset(new Object(std::move(o))); }
inline Any::Any(List l) : kind_{Kind::list} { list_.reset(new List(std::move(l))); }
inline Any& Any::operator=(Object o) { *this = Any{std::move(o)}; return *this; }
inline Any& Any::operator=(List o) { *this = Any{std::move(o)}; return *this; }
inline void Any::Del(Object* o) { delete o; }
inline void Any::DelL(List* o) { delete o; }
inline score::Result<Any> operator""_json(const char*, std::size_t) { return Any{}; }
class JsonParser
{
  public:
    score::Result<Any> FromFile(std::string_view) const noexcept { return score::MakeUnexpected(Error::kUnknownError); }
    score::Result<Any> FromBuffer(std::string_view) const noexcept { return score::MakeUnexpected(Error::kUnknownError); }
};
} }
