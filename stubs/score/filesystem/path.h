// Stand-in: a path is its string (never interpreted by a contract)
#pragma once
#include <string>
#include <ostream>
namespace score { namespace filesystem {
class Path
{
  public:
    Path() = default;
    Path(std::string s) : native_{std::move(s)} {}
    Path(const char* s) : native_{s} {}
    Path(std::string_view s) : native_{s} {}
    const std::string& Native() const noexcept { return native_; }
    const char* CStr() const noexcept { return native_.c_str(); }
    bool Empty() const noexcept { return native_.empty(); }
    Path& operator/=(const Path& o) { native_ += "/" + o.native_; return *this; }
    friend Path operator/(Path a, const Path& b) { a /= b; return a; }
    friend bool operator==(const Path& a, const Path& b) noexcept { return a.native_ == b.native_; }
    friend bool operator!=(const Path& a, const Path& b) noexcept { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& o, const Path& p) { return o << p.native_; }
  private:
    std::string native_;
};
} }
