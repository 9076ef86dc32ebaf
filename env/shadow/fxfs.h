#pragma once
#include <fxstreams.h>
extern "C" { int fx_fs_exists(const char *); int fx_fs_isdir(const char *); long fx_fs_size(const char *); int fx_unlink(const char *); }
namespace std { namespace filesystem {
class filesystem_error : public system_error { public: filesystem_error(const string &w, error_code c) : system_error(c, w) {} };
class path { public: string s; path() {} path(const char *p) : s(p) {} path(const string &p) : s(p) {} const char *c_str() const { return s.c_str(); } string string_() const { return s; } std::string string() const { return s; } operator std::string() const { return s; } bool empty() const { return s.empty(); }
  path &operator/=(const path &o) { if (!o.s.empty() && o.s[0] == '/') s = o.s; else { if (!s.empty() && s.back() != '/') s += '/'; s += o.s; } return *this; } friend path operator/(path a, const path &b) { a /= b; return a; }
  path filename() const { auto k = s.rfind('/'); return k == std::string::npos ? s : s.substr(k + 1); } path parent_path() const { auto k = s.rfind('/'); return k == std::string::npos ? std::string() : s.substr(0, k); } friend bool operator==(const path &a, const path &b) { return a.s == b.s; } };
inline bool exists(const path &p) { return fx_fs_exists(p.c_str()); }
inline bool is_directory(const path &p) { return fx_fs_isdir(p.c_str()); }
inline bool is_regular_file(const path &p) { return fx_fs_exists(p.c_str()) && !fx_fs_isdir(p.c_str()); }
inline ::uintmax_t file_size(const path &p) { long n = fx_fs_size(p.c_str()); if (n < 0) throw filesystem_error("file_size", make_error_code(errc::no_such_file_or_directory)); return n; }
inline bool remove(const path &p) { return fx_unlink(p.c_str()) == 0; }
inline bool create_directory(const path &p) { return false; } inline bool create_directories(const path &p) { return false; }
inline path current_path() { return path("/cwd"); } inline path absolute(const path &p) { return p; }
enum class file_type { none, not_found, regular, directory }; struct file_status { file_type t; file_type type() const { return t; } }; inline file_status status(const path &p) { return {is_directory(p) ? file_type::directory : exists(p) ? file_type::regular : file_type::not_found}; }
enum class perms : unsigned { none = 0, all = 0777 };
struct directory_entry { path p; const filesystem::path &path() const { return p; } };
}}
