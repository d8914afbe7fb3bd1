// A scripted client in place of the embedded Python interpreter. A "module" is a text file (<path>/<name>.py):
//   cb <callback>                              the module defines this callback
//   at <callback> <iteration|*> <fn> <args...> call fn of the extension module when the callback runs before that iteration
//   at <callback> <iteration|*> raise          the callback raises
//   coef <mu|cor> <collision type|*> <value>   value assigned by frictionCoefficient / restitutionCoefficient
//   coefpair <mu|cor> <scale>                 value that depends on which bodies (or body and wall) meet
//   coefraise <callback> <n>                   the n-th coefficient callback raises
// args: I:<unsigned> i:<int> d:<double> u:<u32,u32,...> (numpy uint32 array)
// Every callback, every observation and every call is recorded in the history of the run.
#include <Python.h>
#include <numpy/arrayobject.h>
#include "runtime.h"
#include <cstdarg>
#include <map>
#include <sstream>
#include <string>
#include <vector>

struct SimPyObject
{
  enum Kind { NONE, MODULE, FUNC, TUPLE, ARRAY, NUM, STR, EXC } kind{ NONE };
  long rc{ 1 };
  std::string s;
  double d{ 0.0 };
  std::vector<SimPyObject*> items;
  char fmt{ 0 };
  // array
  int nd{ 0 };
  npy_intp dims[4]{ 0, 0, 0, 0 };
  int type{ 0 };
  void* data{ nullptr };
  std::vector<char> own;
  PyArray_Descr descr{ 'f', 8 };
};

namespace
{
bool g_init = false;
std::string g_sys_path;
bool g_err = false;
PyMethodDef* g_methods = nullptr;
std::string g_ext_name;

struct Action { std::string cb; long iter; std::string fn; std::vector<std::string> args; };
std::vector<std::string> g_cbs;
std::vector<Action> g_actions;
struct Coef { std::string which; std::string type; double value; };
std::vector<Coef> g_coefs;
std::map<std::string,long> g_coefraise;
std::map<std::string,double> g_coefpair;
std::map<std::string,long> g_calls;
bool g_loaded = false;

PyObject* mk( SimPyObject::Kind k ) { PyObject* o = new SimPyObject; o->kind = k; return o; }

bool loadScript( const std::string& file )
{
  const rt::Exempt exempt;
  std::string text;
  if( !rt::diskReadAll( file.c_str(), text ) ) { return false; }
  g_cbs.clear(); g_actions.clear(); g_coefs.clear(); g_coefraise.clear(); g_coefpair.clear();
  std::istringstream is( text );
  std::string line;
  while( std::getline( is, line ) )
  {
    std::istringstream ls( line );
    std::string k;
    if( !( ls >> k ) || k[0] == '#' ) { continue; }
    if( k == "cb" ) { std::string c; ls >> c; g_cbs.push_back( c ); }
    else if( k == "at" )
    {
      Action a; std::string it; ls >> a.cb >> it >> a.fn;
      a.iter = it == "*" ? -1 : atol( it.c_str() );
      std::string x; while( ls >> x ) { a.args.push_back( x ); }
      g_actions.push_back( a );
    }
    else if( k == "coef" ) { Coef c; ls >> c.which >> c.type >> c.value; g_coefs.push_back( c ); }
    else if( k == "coefpair" ) { std::string w; double x; ls >> w >> x; g_coefpair[w] = x; }
    else if( k == "coefraise" ) { std::string c; long n; ls >> c >> n; g_coefraise[c] = n; }
    else if( k == "syntaxerror" ) { return false; }
  }
  return true;
}

PyMethodDef* method( const std::string& n )
{
  for( PyMethodDef* m = g_methods; m != nullptr && m->ml_name != nullptr; ++m ) { if( n == m->ml_name ) { return m; } }
  return nullptr;
}
bool has( const std::string& n ) { return method( n ) != nullptr; }

// new reference or nullptr
PyObject* call( const std::string& n, const std::vector<PyObject*>& args )
{
  PyMethodDef* m = method( n );
  if( m == nullptr ) { g_err = true; rt::event( "P noattr %s", n.c_str() ); return nullptr; }
  PyObject* t = nullptr;
  if( m->ml_flags != METH_NOARGS ) { t = mk( SimPyObject::TUPLE ); t->items = args; }
  PyObject* r = m->ml_meth( nullptr, t );
  return r;
}

std::string show( const PyObject* o )
{
  const rt::Exempt exempt;
  if( o == nullptr ) { return "<null>"; }
  char b[64];
  switch( o->kind )
  {
    case SimPyObject::NUM: snprintf( b, sizeof b, "%.17g", o->d ); return b;
    case SimPyObject::STR: return o->s;
    case SimPyObject::ARRAY:
    {
      std::string r = "[";
      long n = 1;
      for( int i = 0; i < o->nd; ++i ) { n *= long( o->dims[i] ); }
      for( long i = 0; i < n; ++i )
      {
        if( o->type == NPY_DOUBLE ) { snprintf( b, sizeof b, "%.17g", static_cast<const double*>( o->data )[i] ); }
        else if( o->type == NPY_FLOAT ) { snprintf( b, sizeof b, "%.9g", double( static_cast<const float*>( o->data )[i] ) ); }
        else if( o->type == NPY_INT ) { snprintf( b, sizeof b, "%d", static_cast<const int*>( o->data )[i] ); }
        else { snprintf( b, sizeof b, "%u", static_cast<const unsigned*>( o->data )[i] ); }
        if( i ) { r += ","; }
        r += b;
      }
      return r + "]";
    }
    default: return "None";
  }
}

void observe( const std::string& cb, const char* fn )
{
  if( !has( fn ) ) { return; }
  PyObject* r = call( fn, {} );
  rt::event( "P obs %s %s %s", cb.c_str(), fn, show( r ).c_str() );
  if( r != nullptr ) { simPyDecRef( r ); }
}

unsigned callUnsigned( const char* fn )
{
  PyObject* r = call( fn, {} );
  const unsigned v = r == nullptr ? 0u : unsigned( r->d );
  if( r != nullptr ) { simPyDecRef( r ); }
  return v;
}

PyObject* argOf( const std::string& a )
{
  const rt::Exempt exempt;
  const std::string v = a.substr( 2 );
  if( a[0] == 'u' )
  {
    PyObject* o = mk( SimPyObject::ARRAY );
    std::vector<unsigned> xs;
    std::istringstream is( v ); std::string t;
    while( std::getline( is, t, ',' ) ) { if( !t.empty() ) { xs.push_back( unsigned( strtoul( t.c_str(), nullptr, 10 ) ) ); } }
    o->own.resize( xs.size() * 4 + 4 );
    if( !xs.empty() ) { memcpy( o->own.data(), xs.data(), xs.size() * 4 ); }
    o->data = o->own.data();
    o->nd = 1; o->dims[0] = npy_intp( xs.size() ); o->type = NPY_UINT; o->descr = PyArray_Descr{ 'u', 4 };
    return o;
  }
  PyObject* o = mk( SimPyObject::NUM );
  o->fmt = a[0];
  o->d = strtod( v.c_str(), nullptr );
  return o;
}

// returns false if the callback raises
bool runCallback( const std::string& cb )
{
  const long ncall = g_calls[cb]++;
  const bool coef = cb == "frictionCoefficient" || cb == "restitutionCoefficient";
  const bool step = cb == "startOfStep" || cb == "endOfStep";
  long iter = -2;
  if( step ) { iter = long( callUnsigned( "nextIteration" ) ); }
  rt::event( "P begin %s %ld", cb.c_str(), iter );
  if( step ) { observe( cb, "timestep" ); }
  if( !coef )
  {
    observe( cb, "configuration" ); observe( cb, "velocity" );
    observe( cb, "numStaticPlanes" ); observe( cb, "numStaticCylinders" ); observe( cb, "num_bodies" ); observe( cb, "num_geometry" ); observe( cb, "numForces" );
  }
  else
  {
    const auto it = g_coefraise.find( cb );
    if( it != g_coefraise.end() && it->second == ncall ) { g_err = true; rt::event( "P raise %s %ld", cb.c_str(), ncall ); return false; }
    const std::string which = cb == "frictionCoefficient" ? "mu" : "cor";
    if( has( which.c_str() ) ) // otherwise there is nothing a script could do
    {
    const unsigned n = callUnsigned( "numCollisions" );
    PyObject* arr = call( which, {} );
    if( arr == nullptr ) { return false; }
    long m = 1;
    for( int i = 0; i < arr->nd; ++i ) { m *= long( arr->dims[i] ); }
    rt::event( "P coef %s n=%u len=%ld", which.c_str(), n, m );
    for( unsigned i = 0; i < n && long( i ) < m; ++i )
    {
      PyObject* ia = mk( SimPyObject::NUM ); ia->d = double( i ); ia->fmt = 'I';
      PyObject* t = call( "collisionType", { ia } );
      PyObject* ib = mk( SimPyObject::NUM ); ib->d = double( i ); ib->fmt = 'I';
      PyObject* ci = call( "collisionIndices", { ib } );
      if( t == nullptr || ci == nullptr ) { return false; }
      double* d = static_cast<double*>( arr->data );
      const double before = d[i];
      for( const Coef& c : g_coefs ) { if( c.which == which && ( c.type == "*" || c.type == t->s ) ) { d[i] = c.value; } }
      const auto pr = g_coefpair.find( which );
      if( pr != g_coefpair.end() && ci->kind == SimPyObject::ARRAY && ci->type == NPY_INT && ci->nd == 1 && ci->dims[0] == 2 )
      {
        long h = 2;
        for( int k = 0; k < 2; ++k ) { const int b = static_cast<const int*>( ci->data )[k]; h += b < 0 ? -1 : b; }
        d[i] = pr->second * double( h % 4 ) / 3.0;
      }
      rt::event( "P contact %s %u %s %s %.17g>%.17g", which.c_str(), i, t->s.c_str(), show( ci ).c_str(), before, d[i] );
      simPyDecRef( t ); simPyDecRef( ci );
    }
    simPyDecRef( arr );
    }
  }
  for( const Action& a : g_actions )
  {
    if( a.cb != cb || ( a.iter != -1 && a.iter != ( step ? iter : ncall ) ) ) { continue; }
    if( a.fn == "raise" ) { g_err = true; rt::event( "P raise %s %ld", cb.c_str(), iter ); return false; }
    if( a.fn == "poke" || a.fn == "pokev" ) // configuration()[i] = x, velocity()[i] = x
    {
      PyObject* arr = call( a.fn == "poke" ? "configuration" : "velocity", {} );
      if( arr == nullptr || a.args.size() != 2 ) { g_err = true; return false; }
      const long i = atol( a.args[0].c_str() + 2 );
      rt::event( "P call %s %s %s", a.fn.c_str(), a.args[0].c_str(), a.args[1].c_str() );
      if( i < 0 || i >= long( arr->dims[0] ) ) { g_err = true; rt::event( "P raise %s %ld", cb.c_str(), iter ); return false; }
      static_cast<double*>( arr->data )[i] = strtod( a.args[1].c_str() + 2, nullptr );
      simPyDecRef( arr );
      continue;
    }
    std::string s;
    std::vector<PyObject*> args;
    for( const std::string& x : a.args ) { s += " " + x; args.push_back( argOf( x ) ); }
    rt::event( "P call %s%s", a.fn.c_str(), s.c_str() );
    PyObject* r = call( a.fn, args );
    rt::event( "P ret %s %s", a.fn.c_str(), show( r ).c_str() );
    if( r == nullptr ) { g_err = true; return false; }
    simPyDecRef( r );
  }
  if( !coef )
  {
    observe( cb + ".after", "configuration" ); observe( cb + ".after", "velocity" );
    observe( cb + ".after", "numStaticPlanes" ); observe( cb + ".after", "num_bodies" ); observe( cb + ".after", "num_geometry" );
  }
  rt::event( "P end %s %ld", cb.c_str(), iter );
  return true;
}
} // namespace

extern "C"
{
void Py_SetProgramName( char* ) {}
void Py_Initialize() { g_init = true; }
void Py_Finalize() { g_init = false; rt::event( "P finalize" ); }
int Py_IsInitialized() { return g_init ? 1 : 0; }
int PyRun_SimpleString( const char* c )
{
  const std::string s{ c };
  const size_t p = s.find( "sys.path.insert(" );
  if( p != std::string::npos )
  {
    const size_t a = s.find( '\'', p ), b = s.rfind( '\'' );
    if( a != std::string::npos && b > a ) { g_sys_path = s.substr( a + 1, b - a - 1 ); }
  }
  return 0;
}
PyObject* PyImport_ImportModule( const char* name )
{
  const std::string n{ name };
  rt::event( "P import %s", name );
  if( !loadScript( g_sys_path.empty() ? n + ".py" : g_sys_path + "/" + n + ".py" ) ) { g_err = true; return nullptr; }
  g_loaded = true;
  PyObject* o = mk( SimPyObject::MODULE );
  o->s = n;
  return o;
}
PyObject* PyImport_ReloadModule( PyObject* m ) { if( m != nullptr ) { simPyIncRef( m ); } return m; }
PyObject* PyObject_GetAttrString( PyObject* m, const char* n )
{
  if( m == nullptr ) { g_err = true; return nullptr; }
  for( const std::string& c : g_cbs ) { if( c == n ) { PyObject* o = mk( SimPyObject::FUNC ); o->s = n; return o; } }
  g_err = true;
  return nullptr;
}
int PyCallable_Check( PyObject* o ) { return o != nullptr && o->kind == SimPyObject::FUNC ? 1 : 0; }
PyObject* PyObject_CallObject( PyObject* f, PyObject* )
{
  if( f == nullptr || f->kind != SimPyObject::FUNC ) { g_err = true; return nullptr; }
  if( rt::libOp( "py", f->s.c_str() ) ) { g_err = true; return nullptr; }
  const bool ok = runCallback( f->s );
  if( !ok ) { return nullptr; }
  rt::libOpDone();
  return mk( SimPyObject::NONE );
}
static PyObject g_exc;
PyObject* PyErr_Occurred() { return g_err ? &g_exc : nullptr; }
void PyErr_Print() { fprintf( stderr, "Traceback: simulated exception\n" ); g_err = false; }
void PyErr_Clear() { g_err = false; }
int PyArg_ParseTuple( PyObject* t, const char* fmt, ... )
{
  if( t == nullptr || t->kind != SimPyObject::TUPLE || t->items.size() != strlen( fmt ) ) { g_err = true; return 0; }
  va_list ap;
  va_start( ap, fmt );
  int ok = 1;
  for( size_t i = 0; fmt[i] != '\0' && ok; ++i )
  {
    PyObject* o = t->items[i];
    switch( fmt[i] )
    {
      case 'I': *va_arg( ap, unsigned* ) = unsigned( (long long)( o->d ) ); break;
      case 'i': *va_arg( ap, int* ) = int( o->d ); break;
      case 'd': *va_arg( ap, double* ) = o->d; break;
      case 'f': *va_arg( ap, float* ) = float( o->d ); break;
      case 'O': *va_arg( ap, PyObject** ) = o; break;
      default: ok = 0;
    }
  }
  va_end( ap );
  if( !ok ) { g_err = true; }
  return ok;
}
PyObject* Py_BuildValue( const char* fmt, ... )
{
  va_list ap;
  va_start( ap, fmt );
  PyObject* o = nullptr;
  switch( fmt[0] )
  {
    case '\0': o = mk( SimPyObject::NONE ); break;
    case 'd': case 'f': o = mk( SimPyObject::NUM ); o->d = va_arg( ap, double ); break;
    case 'I': o = mk( SimPyObject::NUM ); o->d = double( va_arg( ap, unsigned ) ); break;
    case 'i': o = mk( SimPyObject::NUM ); o->d = double( va_arg( ap, int ) ); break;
    case 's': o = mk( SimPyObject::STR ); o->s = va_arg( ap, const char* ); break;
    default: g_err = true;
  }
  va_end( ap );
  return o;
}
PyObject* Py_InitModule( const char* n, PyMethodDef* m ) { g_ext_name = n; g_methods = m; return mk( SimPyObject::MODULE ); }
void simPyIncRef( PyObject* o ) { ++o->rc; }
void simPyDecRef( PyObject* o ) { if( o != nullptr && o != &g_exc && --o->rc == 0 ) { delete o; } }

int _import_array() { return 0; }
PyObject* PyArray_SimpleNewFromData( int nd, npy_intp* dims, int type, void* data )
{
  PyObject* o = mk( SimPyObject::ARRAY );
  o->nd = nd; o->type = type; o->data = data;
  for( int i = 0; i < nd && i < 4; ++i ) { o->dims[i] = dims[i]; }
  return o;
}
PyObject* PyArray_SimpleNew( int nd, npy_intp* dims, int type )
{
  PyObject* o = PyArray_SimpleNewFromData( nd, dims, type, nullptr );
  long n = 8;
  for( int i = 0; i < nd; ++i ) { n *= long( dims[i] ); }
  o->own.resize( size_t( n ) + 8 );
  o->data = o->own.data();
  return o;
}
void* PyArray_DATA( PyArrayObject* o ) { return o->data; }
int PyArray_NDIM( PyArrayObject* o ) { return o->nd; }
npy_intp PyArray_DIM( PyArrayObject* o, int i ) { return o->dims[i]; }
PyArray_Descr* PyArray_DESCR( PyArrayObject* o ) { return &o->descr; }
}
