// In-memory HDF5 whose file image goes through the simulated disk. A created file is invalid until it is closed: creation
// writes a partial header, H5Fclose writes the full canonical image (text, ending in END). The library calls that do I/O in
// the real library are fault points.
#include <hdf5.h>
#include "runtime.h"
#include <cstdio>
#include <cstring>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>

namespace
{
struct Type
{
  enum K { PRIM, STR, ARRAY, COMPOUND } k{ PRIM };
  hid_t prim{ 0 };
  std::size_t size{ 0 };
  bool varstr{ false };
  std::shared_ptr<Type> base; // ARRAY
  std::size_t count{ 1 };
  struct Member { std::string name; std::size_t off; std::shared_ptr<Type> t; };
  std::vector<Member> members;
};
struct Space { std::vector<hsize_t> dims; bool sel{ false }; std::vector<hsize_t> start, count; };
struct Dset { std::shared_ptr<Type> type; std::vector<hsize_t> dims; std::vector<std::string> elems; };
struct File { std::string path; bool writable{ false }; bool open{ true }; std::map<std::string,int> groups; std::map<std::string,std::shared_ptr<Dset>> sets; std::vector<std::string> order; int fd{ -1 }; };
struct Obj { enum K { FILE_, GROUP, SPACE, TYPE, DSET } k; std::shared_ptr<File> f; std::string path; Space space; std::shared_ptr<Type> type; std::shared_ptr<Dset> ds; };
std::map<hid_t,Obj>* g_objs = nullptr;
hid_t g_next = 1000;
std::map<hid_t,Obj>& objs() { if( g_objs == nullptr ) { g_objs = new std::map<hid_t,Obj>; } return *g_objs; }
hid_t put( const Obj& o ) { const hid_t h = g_next++; objs()[h] = o; return h; }
Obj* get( hid_t h, Obj::K k ) { auto it = objs().find( h ); return it == objs().end() || it->second.k != k ? nullptr : &it->second; }

std::size_t primSize( hid_t t )
{
  switch( t ) { case 11: return 8; case 12: return 4; case 13: return 4; case 14: return 4; case 15: return 8; case 16: case 17: return 1; case 18: return 8; case 19: return 1; case 20: return 1; default: return 0; }
}
const char* primName( hid_t t )
{
  switch( t ) { case 11: return "f64"; case 12: return "f32"; case 13: return "i32"; case 14: return "u32"; case 15: return "i64"; case 16: case 17: return "str"; case 18: return "u64"; case 19: return "i8"; case 20: return "u8"; default: return "?"; }
}
std::shared_ptr<Type> typeOf( hid_t h )
{
  if( h >= 11 && h <= 20 )
  {
    auto t = std::make_shared<Type>();
    t->k = h == 16 || h == 17 ? Type::STR : Type::PRIM;
    t->prim = h; t->size = primSize( h );
    return t;
  }
  Obj* o = get( h, Obj::TYPE );
  return o == nullptr ? nullptr : o->type;
}
std::string typeName( const Type& t )
{
  switch( t.k )
  {
    case Type::PRIM: return primName( t.prim );
    case Type::STR: return "str";
    case Type::ARRAY: return typeName( *t.base ) + "[" + std::to_string( t.count ) + "]";
    default:
    {
      std::string s = "{";
      for( const auto& m : t.members ) { if( s.size() > 1 ) { s += ","; } s += m.name + ":" + typeName( *m.t ); }
      return s + "}";
    }
  }
}
std::string enc( const Type& t, const char* p )
{
  char b[64];
  switch( t.k )
  {
    case Type::PRIM:
      switch( t.prim )
      {
        case 11: { double v; memcpy( &v, p, 8 ); snprintf( b, sizeof b, "%.17g", v ); return b; }
        case 12: { float v; memcpy( &v, p, 4 ); snprintf( b, sizeof b, "%.9g", double( v ) ); return b; }
        case 13: { int v; memcpy( &v, p, 4 ); return std::to_string( v ); }
        case 14: { unsigned v; memcpy( &v, p, 4 ); return std::to_string( v ); }
        case 15: { long v; memcpy( &v, p, 8 ); return std::to_string( v ); }
        case 18: { unsigned long v; memcpy( &v, p, 8 ); return std::to_string( v ); }
        default: return std::to_string( int( *p ) );
      }
    case Type::STR:
    {
      std::string s;
      if( t.varstr ) { const char* c; memcpy( &c, p, sizeof c ); s = c == nullptr ? "" : c; } else { s.assign( p, t.size ); }
      std::string o = "\"";
      for( char c : s ) { if( c == '"' || c == '\\' || c == ' ' || c == '\n' ) { snprintf( b, sizeof b, "\\x%02x", unsigned( (unsigned char) c ) ); o += b; } else { o += c; } }
      return o + "\"";
    }
    case Type::ARRAY:
    {
      std::string s = "(";
      for( std::size_t i = 0; i < t.count; ++i ) { if( i ) { s += ","; } s += enc( *t.base, p + i * t.base->size ); }
      return s + ")";
    }
    default:
    {
      std::string s = "{";
      for( const auto& m : t.members ) { if( s.size() > 1 ) { s += ","; } s += enc( *m.t, p + m.off ); }
      return s + "}";
    }
  }
}
bool dec( const Type& t, const std::string& s, char* p )
{
  if( t.k != Type::PRIM ) { return false; }
  switch( t.prim )
  {
    case 11: { const double v = strtod( s.c_str(), nullptr ); memcpy( p, &v, 8 ); return true; }
    case 12: { const float v = strtof( s.c_str(), nullptr ); memcpy( p, &v, 4 ); return true; }
    case 13: { const int v = int( strtol( s.c_str(), nullptr, 10 ) ); memcpy( p, &v, 4 ); return true; }
    case 14: { const unsigned v = unsigned( strtoul( s.c_str(), nullptr, 10 ) ); memcpy( p, &v, 4 ); return true; }
    case 15: { const long v = strtol( s.c_str(), nullptr, 10 ); memcpy( p, &v, 8 ); return true; }
    default: return false;
  }
}
std::size_t npoints( const std::vector<hsize_t>& d ) { std::size_t n = 1; for( hsize_t x : d ) { n *= std::size_t( x ); } return n; }

// linear indices selected in a space
bool selection( const Space& s, std::vector<std::size_t>& out )
{
  out.clear();
  if( !s.sel ) { const std::size_t n = npoints( s.dims ); for( std::size_t i = 0; i < n; ++i ) { out.push_back( i ); } return true; }
  std::vector<hsize_t> idx( s.dims.size(), 0 );
  if( npoints( s.count ) == 0 ) { return true; }
  for(;;)
  {
    std::size_t lin = 0;
    for( std::size_t k = 0; k < s.dims.size(); ++k )
    {
      const hsize_t x = s.start[k] + idx[k];
      if( x >= s.dims[k] ) { return false; }
      lin = lin * std::size_t( s.dims[k] ) + std::size_t( x );
    }
    out.push_back( lin );
    int k = int( s.dims.size() ) - 1;
    while( k >= 0 && ++idx[ size_t( k ) ] == s.count[ size_t( k ) ] ) { idx[ size_t( k ) ] = 0; --k; }
    if( k < 0 ) { return true; }
  }
}
std::string join( const std::string& a, const char* n )
{
  std::string s{ n };
  while( !s.empty() && s[0] == '/' ) { s = s.substr( 1 ); }
  if( a.empty() ) { return s; }
  return s.empty() ? a : a + "/" + s;
}
std::shared_ptr<File> fileOf( hid_t loc, std::string& base )
{
  if( Obj* o = get( loc, Obj::FILE_ ) ) { base = ""; return o->f->open ? o->f : nullptr; }
  if( Obj* o = get( loc, Obj::GROUP ) ) { base = o->path; return o->f->open ? o->f : nullptr; }
  return nullptr;
}
std::string image( const File& f )
{
  const rt::Exempt exempt;
  std::string s = "SIMH5 1\n";
  for( const auto& g : f.groups ) { s += "G " + g.first + "\n"; }
  for( const auto& d : f.sets )
  {
    s += "D " + d.first + " " + typeName( *d.second->type ) + " " + std::to_string( d.second->dims.size() );
    for( hsize_t x : d.second->dims ) { s += " " + std::to_string( x ); }
    s += "\n";
    for( std::size_t i = 0; i < d.second->elems.size(); ++i ) { if( i ) { s += " "; } s += d.second->elems[i].empty() ? "<unwritten>" : d.second->elems[i]; }
    s += "\n";
  }
  return s + "END\n";
}
bool parse( const std::string& text, File& f )
{
  const rt::Exempt exempt;
  if( text.size() < 12 || text.compare( 0, 8, "SIMH5 1\n" ) != 0 || text.compare( text.size() - 4, 4, "END\n" ) != 0 ) { return false; }
  std::istringstream is( text );
  std::string line;
  std::getline( is, line );
  while( std::getline( is, line ) )
  {
    if( line == "END" ) { return true; }
    std::istringstream ls( line );
    std::string k, p; ls >> k >> p;
    if( k == "G" ) { f.groups[p] = 1; continue; }
    if( k != "D" ) { return false; }
    std::string tn; int rank = 0; ls >> tn >> rank;
    auto d = std::make_shared<Dset>();
    for( int i = 0; i < rank; ++i ) { hsize_t x = 0; ls >> x; d->dims.push_back( x ); }
    hid_t th = 0;
    for( hid_t h = 11; h <= 15; ++h ) { if( tn == primName( h ) ) { th = h; } }
    if( th == 0 ) { return false; }
    d->type = typeOf( th );
    if( !std::getline( is, line ) ) { return false; }
    std::istringstream vs( line );
    std::string v;
    while( vs >> v ) { d->elems.push_back( v ); }
    if( d->elems.size() != npoints( d->dims ) ) { return false; }
    f.sets[p] = d;
  }
  return false;
}
}

extern "C"
{
hid_t H5Fcreate( const char* name, unsigned, hid_t, hid_t )
{
  if( rt::libOp( "h5fcreate", rt::rel( name ).c_str() ) ) { return -1; }
  const int fd = rt::diskOpen( name, true, true );
  if( fd < 0 ) { return -1; }
  Obj o; o.k = Obj::FILE_; o.f = std::make_shared<File>(); o.f->path = name; o.f->writable = true; o.f->fd = fd;
  if( !rt::diskWriteAll( fd, "SIMH5 0\n", 8 ) ) { rt::diskClose( fd ); return -1; } // an open file is not a valid one
  rt::libOpDone();
  return put( o );
}
hid_t H5Fopen( const char* name, unsigned flags, hid_t )
{
  if( rt::libOp( "h5fopen", rt::rel( name ).c_str() ) ) { return -1; }
  std::string text;
  if( !rt::diskReadAll( name, text ) ) { return -1; }
  Obj o; o.k = Obj::FILE_; o.f = std::make_shared<File>(); o.f->path = name; o.f->writable = flags != H5F_ACC_RDONLY;
  if( !parse( text, *o.f ) ) { return -1; }
  rt::libOpDone();
  return put( o );
}
static herr_t flush( File& f )
{
  if( !f.writable || f.fd < 0 ) { return 0; }
  const std::string s = image( f );
  lseek( f.fd, 0, SEEK_SET );
  return rt::diskWriteAll( f.fd, s.data(), s.size() ) ? 0 : -1;
}
herr_t H5Fflush( hid_t h, H5F_scope_t )
{
  Obj* o = get( h, Obj::FILE_ );
  if( o == nullptr ) { return -1; }
  if( rt::libOp( "h5fflush", rt::rel( o->f->path.c_str() ).c_str() ) ) { return -1; }
  const herr_t r = flush( *o->f );
  rt::libOpDone();
  return r;
}
herr_t H5Fclose( hid_t h )
{
  Obj* o = get( h, Obj::FILE_ );
  if( o == nullptr ) { return -1; }
  std::shared_ptr<File> f = o->f;
  objs().erase( h );
  f->open = false;
  herr_t r = 0;
  if( f->fd >= 0 )
  {
    const bool fail = rt::libOp( "h5fclose", rt::rel( f->path.c_str() ).c_str() );
    if( fail || flush( *f ) < 0 ) { r = -1; }
    if( rt::diskClose( f->fd ) != 0 ) { r = -1; }
    f->fd = -1;
    if( !fail ) { rt::libOpDone(); }
  }
  return r;
}
hid_t H5Gopen2( hid_t loc, const char* name, hid_t )
{
  std::string base; auto f = fileOf( loc, base );
  if( !f ) { return -1; }
  if( rt::libOp( "h5gopen", name ) ) { return -1; }
  const std::string p = join( base, name );
  if( !p.empty() && f->groups.find( p ) == f->groups.end() ) { return -1; }
  Obj o; o.k = Obj::GROUP; o.f = f; o.path = p;
  rt::libOpDone();
  return put( o );
}
hid_t H5Gcreate2( hid_t loc, const char* name, hid_t, hid_t, hid_t )
{
  std::string base; auto f = fileOf( loc, base );
  if( !f || !f->writable ) { return -1; }
  if( rt::libOp( "h5gcreate", name ) ) { return -1; }
  const std::string p = join( base, name );
  if( p.empty() || f->groups.count( p ) || f->sets.count( p ) ) { return -1; }
  const std::size_t sl = p.rfind( '/' );
  if( sl != std::string::npos && !f->groups.count( p.substr( 0, sl ) ) ) { return -1; }
  f->groups[p] = 1;
  Obj o; o.k = Obj::GROUP; o.f = f; o.path = p;
  rt::libOpDone();
  return put( o );
}
herr_t H5Gclose( hid_t h ) { return objs().erase( h ) ? 0 : -1; }
htri_t H5Lexists( hid_t loc, const char* name, hid_t )
{
  std::string base; auto f = fileOf( loc, base );
  if( !f ) { return -1; }
  const std::string p = join( base, name );
  return f->groups.count( p ) || f->sets.count( p ) ? 1 : 0;
}
hid_t H5Screate_simple( int n, const hsize_t* d, const hsize_t* )
{
  Obj o; o.k = Obj::SPACE; o.space.dims.assign( d, d + n );
  return put( o );
}
herr_t H5Sselect_hyperslab( hid_t h, H5S_seloper_t, const hsize_t* start, const hsize_t*, const hsize_t* count, const hsize_t* )
{
  Obj* o = get( h, Obj::SPACE );
  if( o == nullptr ) { return -1; }
  const std::size_t n = o->space.dims.size();
  o->space.sel = true;
  o->space.start.assign( start, start + n );
  o->space.count.assign( count, count + n );
  return 0;
}
int H5Sget_simple_extent_ndims( hid_t h ) { Obj* o = get( h, Obj::SPACE ); return o == nullptr ? -1 : int( o->space.dims.size() ); }
int H5Sget_simple_extent_dims( hid_t h, hsize_t* d, hsize_t* )
{
  Obj* o = get( h, Obj::SPACE );
  if( o == nullptr ) { return -1; }
  for( std::size_t i = 0; i < o->space.dims.size(); ++i ) { d[i] = o->space.dims[i]; }
  return int( o->space.dims.size() );
}
herr_t H5Sclose( hid_t h ) { return objs().erase( h ) ? 0 : -1; }
hid_t H5Tcopy( hid_t h )
{
  auto t = typeOf( h );
  if( !t ) { return -1; }
  Obj o; o.k = Obj::TYPE; o.type = std::make_shared<Type>( *t );
  return put( o );
}
hid_t H5Tcreate( H5T_class_t, std::size_t n )
{
  Obj o; o.k = Obj::TYPE; o.type = std::make_shared<Type>(); o.type->k = Type::COMPOUND; o.type->size = n;
  return put( o );
}
hid_t H5Tarray_create2( hid_t b, unsigned r, const hsize_t* d )
{
  auto t = typeOf( b );
  if( !t ) { return -1; }
  Obj o; o.k = Obj::TYPE; o.type = std::make_shared<Type>(); o.type->k = Type::ARRAY; o.type->base = t;
  o.type->count = npoints( std::vector<hsize_t>( d, d + r ) ); o.type->size = o.type->count * t->size;
  return put( o );
}
herr_t H5Tinsert( hid_t h, const char* n, std::size_t off, hid_t m )
{
  Obj* o = get( h, Obj::TYPE ); auto t = typeOf( m );
  if( o == nullptr || !t || o->type->k != Type::COMPOUND || off + t->size > o->type->size ) { return -1; }
  for( const auto& x : o->type->members ) { if( x.name == n || ( off < x.off + x.t->size && x.off < off + t->size ) ) { return -1; } }
  o->type->members.push_back( Type::Member{ n, off, std::make_shared<Type>( *t ) } );
  return 0;
}
herr_t H5Tset_size( hid_t h, std::size_t n )
{
  Obj* o = get( h, Obj::TYPE );
  if( o == nullptr || o->type->k != Type::STR ) { return -1; }
  if( n == H5T_VARIABLE ) { o->type->varstr = true; o->type->size = sizeof( char* ); } else { o->type->varstr = false; o->type->size = n; }
  return 0;
}
htri_t H5Tequal( hid_t a, hid_t b )
{
  auto x = typeOf( a ), y = typeOf( b );
  if( !x || !y ) { return -1; }
  return typeName( *x ) == typeName( *y ) ? 1 : 0;
}
herr_t H5Tclose( hid_t h ) { return objs().erase( h ) ? 0 : -1; }
hid_t H5Dcreate2( hid_t loc, const char* name, hid_t t, hid_t s, hid_t, hid_t, hid_t )
{
  std::string base; auto f = fileOf( loc, base );
  auto ty = typeOf( t ); Obj* sp = get( s, Obj::SPACE );
  if( !f || !f->writable || !ty || sp == nullptr || name[0] == '\0' ) { return -1; }
  if( rt::libOp( "h5dcreate", name ) ) { return -1; }
  const std::string p = join( base, name );
  const std::size_t sl = p.rfind( '/' );
  if( sl != std::string::npos && !f->groups.count( p.substr( 0, sl ) ) ) { return -1; }
  if( f->sets.count( p ) || f->groups.count( p ) ) { return -1; }
  Obj o; o.k = Obj::DSET; o.f = f; o.path = p; o.ds = std::make_shared<Dset>();
  o.ds->type = std::make_shared<Type>( *ty ); o.ds->dims = sp->space.dims; o.ds->elems.resize( npoints( sp->space.dims ) );
  f->sets[p] = o.ds;
  rt::libOpDone();
  return put( o );
}
hid_t H5Dopen2( hid_t loc, const char* name, hid_t )
{
  std::string base; auto f = fileOf( loc, base );
  if( !f ) { return -1; }
  if( rt::libOp( "h5dopen", name ) ) { return -1; }
  auto it = f->sets.find( join( base, name ) );
  if( it == f->sets.end() ) { return -1; }
  Obj o; o.k = Obj::DSET; o.f = f; o.path = it->first; o.ds = it->second;
  rt::libOpDone();
  return put( o );
}
hid_t H5Dget_type( hid_t h ) { Obj* o = get( h, Obj::DSET ); if( o == nullptr ) { return -1; } Obj n; n.k = Obj::TYPE; n.type = o->ds->type; return put( n ); }
hid_t H5Dget_space( hid_t h ) { Obj* o = get( h, Obj::DSET ); if( o == nullptr ) { return -1; } Obj n; n.k = Obj::SPACE; n.space.dims = o->ds->dims; return put( n ); }
herr_t H5Dwrite( hid_t h, hid_t t, hid_t ms, hid_t ds, hid_t, const void* buf )
{
  Obj* o = get( h, Obj::DSET ); auto ty = typeOf( t );
  if( o == nullptr || !ty || !o->f->writable || !o->f->open ) { return -1; }
  if( typeName( *ty ) != typeName( *o->ds->type ) ) { return -1; }
  if( rt::libOp( "h5dwrite", o->path.c_str() ) ) { return -1; }
  std::vector<std::size_t> src, dst;
  Space dspace; dspace.dims = o->ds->dims;
  if( ds != H5S_ALL ) { Obj* s = get( ds, Obj::SPACE ); if( s == nullptr || npoints( s->space.dims ) != npoints( o->ds->dims ) ) { return -1; } dspace = s->space; }
  if( !selection( dspace, dst ) ) { return -1; }
  Space mspace = dspace;
  if( ms != H5S_ALL ) { Obj* s = get( ms, Obj::SPACE ); if( s == nullptr ) { return -1; } mspace = s->space; }
  if( !selection( mspace, src ) || src.size() != dst.size() ) { return -1; }
  for( std::size_t i = 0; i < src.size(); ++i ) { o->ds->elems[ dst[i] ] = enc( *ty, static_cast<const char*>( buf ) + src[i] * ty->size ); }
  rt::libOpDone();
  return 0;
}
herr_t H5Dread( hid_t h, hid_t t, hid_t, hid_t, hid_t, void* buf )
{
  Obj* o = get( h, Obj::DSET ); auto ty = typeOf( t );
  if( o == nullptr || !ty ) { return -1; }
  if( rt::libOp( "h5dread", o->path.c_str() ) ) { return -1; }
  for( std::size_t i = 0; i < o->ds->elems.size(); ++i ) { if( !dec( *ty, o->ds->elems[i], static_cast<char*>( buf ) + i * ty->size ) ) { return -1; } }
  rt::libOpDone();
  return 0;
}
herr_t H5Dclose( hid_t h ) { return objs().erase( h ) ? 0 : -1; }
}
