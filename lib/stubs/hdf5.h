// An in-memory stand-in for the part of the HDF5 C API the repository calls. It follows the library's documented
// behaviour: names may be created once, a parent group must exist, a file opened read-only cannot be written, the
// selections of a transfer must have the same number of elements and lie inside their extents, data is converted
// between the memory type and the file type, and every identifier counts as open until it is closed.
#ifndef VP_HDF5_STUB
#define VP_HDF5_STUB
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <string>
#include <utility>
#include <vector>

typedef std::int64_t hid_t;
typedef int herr_t;
typedef int htri_t;
typedef unsigned long long hsize_t;

#define H5T_NATIVE_DOUBLE ((hid_t)1)
#define H5T_NATIVE_FLOAT ((hid_t)2)
#define H5T_NATIVE_INT ((hid_t)3)
#define H5T_NATIVE_UINT ((hid_t)4)
#define H5T_NATIVE_LONG ((hid_t)5)
#define H5T_C_S1 ((hid_t)6)
#define H5T_FORTRAN_S1 ((hid_t)7)
#define H5T_VARIABLE ((std::size_t)-1)
#define H5S_ALL ((hid_t)0)
#define H5P_DEFAULT ((hid_t)0)
#define H5F_ACC_TRUNC 2u
#define H5F_ACC_RDONLY 0u
#define HOFFSET(S,M) offsetof(S,M)
typedef enum { H5T_COMPOUND = 6 } H5T_class_t;
typedef enum { H5S_SELECT_SET = 0 } H5S_seloper_t;

namespace h5
{
struct Type
{
  int kind = 0; // 1-5 numbers as above, 6 string, 7 fixed string, 8 compound, 9 array
  std::size_t size = 0;
  std::vector<std::string> names;
  std::vector<std::size_t> offsets;
  std::vector<Type> parts; // compound members, or the element type of an array
  std::size_t count = 0;   // array elements
};
inline Type number(int k) { Type t; t.kind = k; t.size = k == 1 ? 8 : k == 5 ? sizeof(long) : 4; return t; }
struct Space { std::vector<hsize_t> dims, off, cnt; bool all = true; };
struct Set { std::string name; Type type; std::vector<hsize_t> dims; char* data = nullptr; std::size_t n = 0; };
struct File { std::string name; std::vector<std::string> groups; std::vector<Set*> sets; };
struct Id { int what = 0; /* 1 file 2 group 3 type 4 space 5 dataset */ File* file = nullptr; bool ro = false; std::string path; Type type; Space space; Set* set = nullptr; };

inline std::vector<File*>& files() { static std::vector<File*> f; return f; }
inline std::vector<Id*>& ids() { static std::vector<Id*> v; return v; }
inline bool& refuse() { static bool r = false; return r; } // the next attempts to open a file fail
inline int openIds() { int n = 0; for( Id* i : ids() ) if( i ) ++n; return n; }
inline void reset() { files().clear(); ids().clear(); refuse() = false; }
inline File* file(const std::string& n) { for( File* f : files() ) if( f->name == n ) return f; return nullptr; }
inline bool hasGroup(File* f, const std::string& g) { if( g.empty() ) return true; for( const std::string& s : f->groups ) if( s == g ) return true; return false; }
inline Set* find(File* f, const std::string& p) { if( !f ) return nullptr; for( Set* s : f->sets ) if( s->name == p ) return s; return nullptr; }

inline hid_t put(Id* i) { ids().push_back(i); return hid_t(100 + ids().size() - 1); }
inline Id* get(hid_t h, int what) { if( h < 100 || std::size_t(h - 100) >= ids().size() ) return nullptr; Id* i = ids()[std::size_t(h - 100)]; return i && i->what == what ? i : nullptr; }
inline herr_t shut(hid_t h, int what) { if( !get(h, what) ) return -1; delete ids()[std::size_t(h - 100)]; ids()[std::size_t(h - 100)] = nullptr; return 0; }
inline bool typeOf(hid_t h, Type& t)
{
  if( h >= 1 && h <= 5 ) { t = number(int(h)); return true; }
  if( h == 6 || h == 7 ) { t = Type(); t.kind = 7; t.size = 1; return true; }
  Id* i = get(h, 3);
  if( !i ) return false;
  t = i->type; return true;
}
inline bool same(const Type& a, const Type& b)
{
  if( a.kind != b.kind || a.size != b.size || a.count != b.count || a.parts.size() != b.parts.size() || a.names != b.names || a.offsets != b.offsets ) return false;
  for( std::size_t i = 0; i < a.parts.size(); ++i ) if( !same(a.parts[i], b.parts[i]) ) return false;
  return true;
}
// Moves one element from memory into the file's representation (strings become owned copies) or back
template<class A, class B> inline void turn(char* d, const char* s) { B b; std::memcpy(&b, s, sizeof b); const A a = A(b); std::memcpy(d, &a, sizeof a); }
template<class A> inline void from(char* d, const char* s, int k) { if( k == 1 ) turn<A,double>(d, s); else if( k == 2 ) turn<A,float>(d, s); else if( k == 3 ) turn<A,int>(d, s); else if( k == 4 ) turn<A,unsigned>(d, s); else turn<A,long>(d, s); }
inline bool move(char* d, const Type& dt, const char* s, const Type& st, bool own)
{
  if( dt.kind >= 1 && dt.kind <= 5 && st.kind >= 1 && st.kind <= 5 )
  {
    if( dt.kind == st.kind ) std::memcpy(d, s, dt.size);
    else if( dt.kind == 1 ) from<double>(d, s, st.kind); else if( dt.kind == 2 ) from<float>(d, s, st.kind); else if( dt.kind == 3 ) from<int>(d, s, st.kind);
    else if( dt.kind == 4 ) from<unsigned>(d, s, st.kind); else from<long>(d, s, st.kind);
    return true;
  }
  if( dt.kind == 6 && st.kind == 6 )
  {
    const char* p; std::memcpy(&p, s, sizeof p);
    if( own && p ) { const std::size_t n = std::strlen(p) + 1; char* q = new char[n]; std::memcpy(q, p, n); p = q; }
    std::memcpy(d, &p, sizeof p); return true;
  }
  if( dt.kind == 7 && st.kind == 7 && dt.size == st.size ) { std::memcpy(d, s, dt.size); return true; }
  if( dt.kind == 9 && st.kind == 9 && dt.count == st.count )
  {
    for( std::size_t i = 0; i < dt.count; ++i ) if( !move(d + i * dt.parts[0].size, dt.parts[0], s + i * st.parts[0].size, st.parts[0], own) ) return false;
    return true;
  }
  if( dt.kind == 8 && st.kind == 8 )
  {
    for( std::size_t i = 0; i < dt.names.size(); ++i ) for( std::size_t j = 0; j < st.names.size(); ++j )
      if( dt.names[i] == st.names[j] && !move(d + dt.offsets[i], dt.parts[i], s + st.offsets[j], st.parts[j], own) ) return false;
    return true;
  }
  return false;
}
inline std::size_t total(const std::vector<hsize_t>& d) { std::size_t n = 1; for( hsize_t x : d ) n *= std::size_t(x); return n; }
// Linear indices a selection names, row-major; false if it does not lie inside the extent
inline bool where(const Space& s, std::vector<std::size_t>& out)
{
  out.clear();
  if( s.all ) { for( std::size_t i = 0; i < total(s.dims); ++i ) out.push_back(i); return true; }
  for( std::size_t k = 0; k < s.dims.size(); ++k ) if( s.off[k] + s.cnt[k] > s.dims[k] ) return false;
  const std::size_t n = total(s.cnt);
  for( std::size_t i = 0; i < n; ++i )
  {
    std::size_t rest = i, lin = 0, mul = 1;
    for( std::size_t k = s.dims.size(); k-- > 0; ) { lin += ( std::size_t(s.off[k]) + rest % std::size_t(s.cnt[k]) ) * mul; rest /= std::size_t(s.cnt[k]); mul *= std::size_t(s.dims[k]); }
    out.push_back(lin);
  }
  return true;
}
inline herr_t transfer(hid_t d, hid_t mt, hid_t ms, hid_t fs, char* mem, const char* cmem)
{
  Id* i = get(d, 5); Type t;
  if( !i || !typeOf(mt, t) || ( !mem && i->ro ) ) return -1;
  Space f, m;
  f.dims = i->set->dims;
  if( fs != H5S_ALL ) { Id* s = get(fs, 4); if( !s || s->space.dims != f.dims ) return -1; f = s->space; }
  if( ms != H5S_ALL ) { Id* s = get(ms, 4); if( !s ) return -1; m = s->space; } else m = f;
  std::vector<std::size_t> fi, mi;
  if( !where(f, fi) || !where(m, mi) || fi.size() != mi.size() ) return -1;
  Type& ft = i->set->type;
  for( std::size_t k = 0; k < fi.size(); ++k )
  {
    char* in = i->set->data + fi[k] * ft.size;
    if( mem ? !move(mem + mi[k] * t.size, t, in, ft, false) : !move(in, ft, cmem + mi[k] * t.size, t, true) ) return -1;
  }
  return 0;
}
inline std::string join(const std::string& a, const std::string& b) { std::string n = b; while( !n.empty() && n[0] == '/' ) n = n.substr(1); return a.empty() ? n : n.empty() ? a : a + "/" + n; }
inline bool place(hid_t loc, const char* name, File*& f, bool& ro, std::string& path)
{
  Id* i = get(loc, 1); if( !i ) i = get(loc, 2);
  if( !i ) return false;
  f = i->file; ro = i->ro; path = join(i->path, name); return true;
}
inline bool parentOk(File* f, const std::string& p) { const std::size_t k = p.find_last_of('/'); return k == std::string::npos || hasGroup(f, p.substr(0, k)); }
}

inline hid_t H5Fcreate(const char* name, unsigned, hid_t, hid_t)
{
  if( h5::refuse() ) return -1;
  h5::File* f = h5::file(name);
  if( !f ) { f = new h5::File; f->name = name; h5::files().push_back(f); }
  f->groups.clear(); f->sets.clear();
  h5::Id* i = new h5::Id; i->what = 1; i->file = f; return h5::put(i);
}
inline hid_t H5Fopen(const char* name, unsigned, hid_t)
{
  h5::File* f = h5::file(name);
  if( h5::refuse() || !f ) return -1;
  h5::Id* i = new h5::Id; i->what = 1; i->file = f; i->ro = true; return h5::put(i);
}
inline herr_t H5Fclose(hid_t h) { return h5::shut(h, 1); }
inline hid_t H5Gcreate2(hid_t loc, const char* name, hid_t, hid_t, hid_t)
{
  h5::File* f; bool ro; std::string p;
  if( !h5::place(loc, name, f, ro, p) || ro || p.empty() || h5::hasGroup(f, p) || h5::find(f, p) || !h5::parentOk(f, p) ) return -1;
  f->groups.push_back(p);
  h5::Id* i = new h5::Id; i->what = 2; i->file = f; i->ro = ro; i->path = p; return h5::put(i);
}
inline hid_t H5Gopen2(hid_t loc, const char* name, hid_t)
{
  h5::File* f; bool ro; std::string p;
  if( !h5::place(loc, name, f, ro, p) || !h5::hasGroup(f, p) ) return -1;
  h5::Id* i = new h5::Id; i->what = 2; i->file = f; i->ro = ro; i->path = p; return h5::put(i);
}
inline herr_t H5Gclose(hid_t h) { return h5::shut(h, 2); }
inline htri_t H5Lexists(hid_t loc, const char* name, hid_t)
{
  h5::File* f; bool ro; std::string p;
  if( !h5::place(loc, name, f, ro, p) || !h5::parentOk(f, p) ) return -1;
  return h5::hasGroup(f, p) || h5::find(f, p) ? 1 : 0;
}
inline hid_t H5Screate_simple(int rank, const hsize_t* dims, const hsize_t*)
{
  if( rank < 0 ) return -1;
  h5::Id* i = new h5::Id; i->what = 4; i->space.dims.assign(dims, dims + rank); return h5::put(i);
}
inline herr_t H5Sselect_hyperslab(hid_t h, H5S_seloper_t, const hsize_t* off, const hsize_t*, const hsize_t* cnt, const hsize_t*)
{
  h5::Id* i = h5::get(h, 4); if( !i ) return -1;
  const std::size_t r = i->space.dims.size();
  i->space.off.assign(off, off + r); i->space.cnt.assign(cnt, cnt + r); i->space.all = false; return 0;
}
inline int H5Sget_simple_extent_ndims(hid_t h) { h5::Id* i = h5::get(h, 4); return i ? int(i->space.dims.size()) : -1; }
inline int H5Sget_simple_extent_dims(hid_t h, hsize_t* dims, hsize_t*)
{
  h5::Id* i = h5::get(h, 4); if( !i ) return -1;
  for( std::size_t k = 0; k < i->space.dims.size(); ++k ) dims[k] = i->space.dims[k];
  return int(i->space.dims.size());
}
inline herr_t H5Sclose(hid_t h) { return h5::shut(h, 4); }
inline hid_t H5Tcreate(H5T_class_t, std::size_t size) { h5::Id* i = new h5::Id; i->what = 3; i->type.kind = 8; i->type.size = size; return h5::put(i); }
inline hid_t H5Tcopy(hid_t h) { h5::Type t; if( !h5::typeOf(h, t) ) return -1; h5::Id* i = new h5::Id; i->what = 3; i->type = t; return h5::put(i); }
inline herr_t H5Tset_size(hid_t h, std::size_t n)
{
  h5::Id* i = h5::get(h, 3); if( !i || ( i->type.kind != 7 && i->type.kind != 6 ) ) return -1;
  if( n == H5T_VARIABLE ) { i->type.kind = 6; i->type.size = sizeof(char*); } else { i->type.kind = 7; i->type.size = n; }
  return 0;
}
inline herr_t H5Tinsert(hid_t h, const char* name, std::size_t off, hid_t m)
{
  h5::Id* i = h5::get(h, 3); h5::Type t;
  if( !i || i->type.kind != 8 || !h5::typeOf(m, t) || off + t.size > i->type.size ) return -1;
  for( std::size_t k = 0; k < i->type.names.size(); ++k )
    if( i->type.names[k] == name || ( off < i->type.offsets[k] + i->type.parts[k].size && i->type.offsets[k] < off + t.size ) ) return -1;
  i->type.names.push_back(name); i->type.offsets.push_back(off); i->type.parts.push_back(t); return 0;
}
inline hid_t H5Tarray_create2(hid_t base, unsigned rank, const hsize_t* dims)
{
  h5::Type t; if( !h5::typeOf(base, t) || rank < 1 ) return -1;
  h5::Id* i = new h5::Id; i->what = 3; i->type.kind = 9; i->type.count = 1;
  for( unsigned k = 0; k < rank; ++k ) i->type.count *= std::size_t(dims[k]);
  i->type.size = i->type.count * t.size; i->type.parts.push_back(t); return h5::put(i);
}
inline htri_t H5Tequal(hid_t a, hid_t b) { h5::Type x, y; if( !h5::typeOf(a, x) || !h5::typeOf(b, y) ) return -1; return h5::same(x, y) ? 1 : 0; }
inline herr_t H5Tclose(hid_t h) { return h5::shut(h, 3); }
inline hid_t H5Dcreate2(hid_t loc, const char* name, hid_t type, hid_t space, hid_t, hid_t, hid_t)
{
  h5::File* f; bool ro; std::string p; h5::Type t; h5::Id* s = h5::get(space, 4);
  if( !h5::place(loc, name, f, ro, p) || ro || !*name || !s || !h5::typeOf(type, t) || h5::find(f, p) || h5::hasGroup(f, p) || !h5::parentOk(f, p) ) return -1;
  h5::Set* d = new h5::Set; d->name = p; d->type = t; d->dims = s->space.dims; d->n = h5::total(d->dims);
  d->data = new char[d->n * t.size + 1](); f->sets.push_back(d);
  h5::Id* i = new h5::Id; i->what = 5; i->file = f; i->ro = ro; i->set = d; return h5::put(i);
}
inline hid_t H5Dopen2(hid_t loc, const char* name, hid_t)
{
  h5::File* f; bool ro; std::string p;
  if( !h5::place(loc, name, f, ro, p) ) return -1;
  h5::Set* d = h5::find(f, p); if( !d ) return -1;
  h5::Id* i = new h5::Id; i->what = 5; i->file = f; i->ro = ro; i->set = d; return h5::put(i);
}
inline herr_t H5Dwrite(hid_t d, hid_t mt, hid_t ms, hid_t fs, hid_t, const void* p) { return h5::transfer(d, mt, ms, fs, nullptr, static_cast<const char*>(p)); }
inline herr_t H5Dread(hid_t d, hid_t mt, hid_t ms, hid_t fs, hid_t, void* p) { return h5::transfer(d, mt, ms, fs, static_cast<char*>(p), nullptr); }
inline hid_t H5Dget_type(hid_t d) { h5::Id* i = h5::get(d, 5); if( !i ) return -1; h5::Id* t = new h5::Id; t->what = 3; t->type = i->set->type; return h5::put(t); }
inline hid_t H5Dget_space(hid_t d) { h5::Id* i = h5::get(d, 5); if( !i ) return -1; h5::Id* s = new h5::Id; s->what = 4; s->space.dims = i->set->dims; return h5::put(s); }
inline herr_t H5Dclose(hid_t h) { return h5::shut(h, 5); }
#endif
