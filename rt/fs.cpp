// Stand-ins for std::filesystem: a path is its text (no decomposition into components). Symbolic build only.
#include <filesystem>
#include <memory>
namespace std::filesystem {
inline namespace __cxx11 {
struct path::_List::_Impl {};
void path::_List::_Impl_deleter::operator()(_Impl*) const noexcept {}
path::_List::_List() {}
path::_List::_List(const _List&) {}
path::_List& path::_List::operator=(const _List&) { return *this; }
void path::_List::type(_Type) noexcept {}
void path::_M_split_cmpts() {}
path& path::operator=(const path& p) { _M_pathname = p._M_pathname; return *this; }
struct filesystem_error::_Impl { string w; path p, q; };
filesystem_error::filesystem_error(const string& s, error_code ec) : system_error(ec, s), _M_impl(std::__make_shared<_Impl>()) {}
filesystem_error::filesystem_error(const string& s, const path& p, error_code ec) : system_error(ec, s), _M_impl(std::__make_shared<_Impl>()) {}
filesystem_error::filesystem_error(const string& s, const path& p, const path&, error_code ec) : system_error(ec, s), _M_impl(std::__make_shared<_Impl>()) {}
filesystem_error::~filesystem_error() {}
const char* filesystem_error::what() const noexcept { return "filesystem error"; }
}
}
