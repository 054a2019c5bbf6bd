// Files that live in memory, so that parsers and checkpoint code run on text chosen by the harness and no real file is touched.
#pragma once
#include <fstream>
#include <sstream>
#include <string>
struct VpFile { bool used; std::string name; std::string data; };
extern VpFile vp_files[16];
inline VpFile* vp_find( const std::string& n ) { for( VpFile& f : vp_files ) if( f.used && f.name == n ) return &f; return nullptr; }
inline VpFile* vp_make( const std::string& n ) { VpFile* f = vp_find( n ); if( !f ) { for( VpFile& g : vp_files ) if( !g.used ) { f = &g; break; } } if( f ) { f->used = true; f->name = n; } return f; }
namespace std {
class vp_ifstream : public std::istringstream
{
  bool m_open;
public:
  vp_ifstream() : m_open( false ) {}
  explicit vp_ifstream( const std::string& n, std::ios_base::openmode = std::ios_base::in ) : m_open( false ) { open( n ); }
  void open( const std::string& n, std::ios_base::openmode = std::ios_base::in ) { VpFile* f = vp_find( n ); m_open = f != nullptr; if( f ) this->str( f->data ); else this->setstate( std::ios_base::failbit ); }
  bool is_open() const { return m_open; }
  void close() { m_open = false; }
};
class vp_ofstream : public std::ostringstream
{
  VpFile* m_file;
public:
  vp_ofstream() : m_file( nullptr ) {}
  explicit vp_ofstream( const std::string& n, std::ios_base::openmode = std::ios_base::out ) : m_file( nullptr ) { open( n ); }
  ~vp_ofstream() { close(); }
  void open( const std::string& n, std::ios_base::openmode = std::ios_base::out ) { m_file = vp_make( n ); if( m_file ) m_file->data.clear(); else this->setstate( std::ios_base::failbit ); }
  bool is_open() const { return m_file != nullptr; }
  void close() { if( m_file ) m_file->data = this->str(); m_file = nullptr; }
};
}
#ifndef VP_REAL_FILES
#define ifstream vp_ifstream
#define ofstream vp_ofstream
#endif
