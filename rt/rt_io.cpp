// iostreams as bitcode: the class templates are instantiated from the headers; locales are inert, files never open
// (there is no file system inside the symbolic executor).
#include <sstream>
#include <fstream>
#include <iostream>
namespace std {
static struct { int rc; const void** f; size_t n; void* rest[16]; } fakeimpl; static const void* fakefacets[64];
static locale::_Impl* fi() { fakeimpl.f = fakefacets; return (locale::_Impl*)&fakeimpl; }
locale::locale() throw() : _M_impl(fi()) {}
size_t locale::id::_M_id() const throw() { return 0; }
locale::locale(const locale& o) throw() : _M_impl(fi()) {}
locale::~locale() throw() {}
const locale& locale::operator=(const locale&) throw() { return *this; }
ios_base::ios_base() throw() { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; _M_exception = goodbit; _M_streambuf_state = goodbit; _M_callbacks = 0; _M_word_size = 8; _M_word = _M_local_word; }
ios_base::~ios_base() {}
void ios_base::_M_init() throw() { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; }
void ios_base::_M_call_callbacks(event) throw() {}
void ios_base::_M_dispose_callbacks() throw() {}
}
namespace std {
typedef __basic_file<char> BF;
BF::__basic_file(__c_lock*) throw() : _M_cfile(0), _M_cfile_created(false) {}
BF::~__basic_file() {}
BF* BF::open(const char*, ios_base::openmode, int) { return 0; }
BF* BF::close() { return 0; }
bool BF::is_open() const throw() { return false; }
template<> istream& istream::ignore(streamsize n, int d) { _M_gcount = 0; while( good() && _M_gcount < n ) { int c = rdbuf()->sbumpc(); if( c == EOF ) { setstate(ios_base::eofbit); break; } ++_M_gcount; if( c == d ) break; } return *this; }
template<> istream& istream::ignore(streamsize n) { return ignore(n, EOF); }
template class basic_streambuf<char>;
template class basic_ios<char>;
template class basic_istream<char>;
template class basic_iostream<char>;
template class basic_stringbuf<char>;
template class basic_istringstream<char>;
template class basic_ostringstream<char>;
template class basic_stringstream<char>;
template class basic_ostream<char>;
template basic_ostream<char>& operator<< <char_traits<char> >(basic_ostream<char>&, const char*);
template basic_ostream<char>& operator<< <char_traits<char> >(basic_ostream<char>&, char);
template basic_ostream<char>& __ostream_insert(basic_ostream<char>&, const char*, streamsize);
template class basic_filebuf<char>;
template class basic_ifstream<char>;
template class basic_ofstream<char>;
void ios_base_library_init() {}
ios_base::Init::Init() {}
ios_base::Init::~Init() {}
}
extern "C" {
#define HF(n, m) bool n(const std::locale*) __asm__(m); bool n(const std::locale*) { return false; }
HF(hf1, "_ZSt9has_facetISt5ctypeIcEEbRKSt6locale")
HF(hf2, "_ZSt9has_facetISt7num_putIcSt19ostreambuf_iteratorIcSt11char_traitsIcEEEEbRKSt6locale")
HF(hf3, "_ZSt9has_facetISt7num_getIcSt19istreambuf_iteratorIcSt11char_traitsIcEEEEbRKSt6locale")
HF(hf4, "_ZSt9has_facetISt7codecvtIcc11__mbstate_tEEbRKSt6locale")
}
#include <cstdio>
#define INS(T, m, fmt) std::ostream& ins_##T(std::ostream&, T) __asm__(m); std::ostream& ins_##T(std::ostream& o, T v) { char b[40]; int n = snprintf(b, 40, fmt, v); return std::__ostream_insert(o, b, (std::streamsize)n); }
typedef unsigned long ulong_; 
INS(long, "_ZNSo9_M_insertIlEERSoT_", "%ld")
INS(ulong_, "_ZNSo9_M_insertImEERSoT_", "%lu")
INS(double, "_ZNSo9_M_insertIdEERSoT_", "%g")
namespace std { void __throw_ios_failure(const char*) { __builtin_trap(); } void __throw_ios_failure(const char*, int) { __builtin_trap(); } }
