// Stand-in for Schittkowski's QL: minimise 1/2 x'Cx + d'x subject to xl <= x <= xu (no general constraints), by a primal
// active set method. Deterministic. Reports an insufficient accuracy (ifail 2) when the optimality conditions are not met.
#include "runtime.h"
#include <algorithm>
#include <cmath>
#include <vector>
extern "C" int ql_( int* m, int* me, int* mmax, int* n, int* nmax, int* mnn, double* c, double* d, double* a, double* b, double* xl, double* xu, double* x, double* u, double* eps, int* mode, int* iout, int* ifail, int* iprint, double* war, int* lwar, int* iwar, int* liwar );

namespace
{
  struct Problem
  {
    int N, L;
    const double* c;
    const double* d;
    double at( const int i, const int j ) const { return c[ i + j * L ]; }
    double grad( const double* x, const int i ) const
    {
      double g = d[i];
      for( int j = 0; j < N; ++j ) { g += at( i, j ) * x[j]; }
      return g;
    }
  };

  // Solves C_FF z = rhs; pivots that vanish leave their variable where it is
  void solve( const Problem& p, const std::vector<int>& F, std::vector<double>& z )
  {
    const int k = int( F.size() );
    std::vector<double> A( std::size_t( k ) * k ), D( k, 0.0 );
    double big = 0.0;
    for( int i = 0; i < k; ++i ) { big = std::max( big, p.at( F[i], F[i] ) ); }
    for( int j = 0; j < k; ++j )
    {
      for( int i = j; i < k; ++i )
      {
        double s = p.at( F[i], F[j] );
        for( int l = 0; l < j; ++l ) { s -= A[ i * k + l ] * A[ j * k + l ] * D[l]; }
        if( i == j ) { D[j] = s > 1.0e-13 * big ? s : 0.0; A[ j * k + j ] = 1.0; }
        else { A[ i * k + j ] = D[j] > 0.0 ? s / D[j] : 0.0; }
      }
    }
    for( int i = 0; i < k; ++i ) { for( int l = 0; l < i; ++l ) { z[i] -= A[ i * k + l ] * z[l]; } }
    for( int i = 0; i < k; ++i ) { z[i] = D[i] > 0.0 ? z[i] / D[i] : 0.0; }
    for( int i = k - 1; i >= 0; --i ) { for( int l = i + 1; l < k; ++l ) { z[i] -= A[ l * k + i ] * z[l]; } }
  }

  double residual( const Problem& p, const double* x, const double* xl, const double* xu )
  {
    double r = 0.0;
    for( int i = 0; i < p.N; ++i )
    {
      const double g = p.grad( x, i );
      double v = std::fabs( g );
      if( x[i] <= xl[i] ) { v = std::max( 0.0, -g ); }
      if( x[i] >= xu[i] ) { v = x[i] <= xl[i] ? 0.0 : std::max( 0.0, g ); }
      if( v > r ) { r = v; }
    }
    return r;
  }
}

extern "C" int ql_( int* m, int*, int*, int* n, int* nmax, int*, double* c, double* d, double*, double*, double* xl, double* xu, double* x, double* u, double*, int*, int*, int* ifail, int*, double*, int*, int*, int* )
{
  rt::Exempt exempt;
  if( *m != 0 ) { *ifail = 1; return 0; }
  const Problem p{ *n, *nmax, c, d };
  const int N = p.N;
  double scale = 0.0;
  for( int i = 0; i < N; ++i ) { scale = std::max( scale, std::fabs( d[i] ) ); }
  for( int i = 0; i < N; ++i ) { x[i] = std::min( std::max( 0.0, xl[i] ), xu[i] ); }
  std::vector<char> free_( N, 0 );
  for( int it = 0; it < 20 * N + 20; ++it )
  {
    // Free the variable at a bound that violates optimality most
    int in = -1;
    double best = 1.0e-13 * scale;
    for( int i = 0; i < N; ++i )
    {
      if( free_[i] || !( p.at( i, i ) > 0.0 ) ) { continue; }
      const double g = p.grad( x, i );
      const double v = g < 0.0 ? ( x[i] < xu[i] ? -g : 0.0 ) : ( x[i] > xl[i] ? g : 0.0 );
      if( v > best ) { best = v; in = i; }
    }
    if( in < 0 ) { break; }
    free_[in] = 1;
    while( true )
    {
      std::vector<int> F;
      for( int i = 0; i < N; ++i ) { if( free_[i] ) { F.push_back( i ); } }
      if( F.empty() ) { break; }
      std::vector<double> z( F.size() );
      for( std::size_t i = 0; i < F.size(); ++i ) { z[i] = -p.grad( x, F[i] ); }
      solve( p, F, z );
      double t = 1.0;
      int block = -1;
      for( std::size_t i = 0; i < F.size(); ++i )
      {
        const int j = F[i];
        if( x[j] + z[i] < xl[j] ) { const double s = ( xl[j] - x[j] ) / z[i]; if( s < t ) { t = s; block = j; } }
        if( x[j] + z[i] > xu[j] ) { const double s = ( xu[j] - x[j] ) / z[i]; if( s < t ) { t = s; block = j; } }
      }
      for( std::size_t i = 0; i < F.size(); ++i ) { x[F[i]] = std::min( std::max( x[F[i]] + t * z[i], xl[F[i]] ), xu[F[i]] ); }
      if( block < 0 )
      {
        // one step of refinement
        for( std::size_t i = 0; i < F.size(); ++i ) { z[i] = -p.grad( x, F[i] ); }
        solve( p, F, z );
        for( std::size_t i = 0; i < F.size(); ++i ) { x[F[i]] = std::min( std::max( x[F[i]] + z[i], xl[F[i]] ), xu[F[i]] ); }
        break;
      }
      free_[block] = 0;
      x[block] = std::fabs( x[block] - xl[block] ) < std::fabs( x[block] - xu[block] ) ? xl[block] : xu[block];
    }
  }
  // Sweeps for what the active set method left
  for( int it = 0; it < 2000 && residual( p, x, xl, xu ) > 1.0e-12 * scale; ++it )
  {
    for( int i = 0; i < N; ++i )
    {
      const double dii = p.at( i, i );
      if( dii > 0.0 ) { x[i] = std::min( std::max( x[i] - p.grad( x, i ) / dii, xl[i] ), xu[i] ); }
    }
  }
  for( int i = 0; i < N; ++i )
  {
    const double g = p.grad( x, i );
    u[i] = x[i] <= xl[i] && g > 0.0 ? g : 0.0;
    u[N + i] = x[i] >= xu[i] && g < 0.0 && u[i] == 0.0 ? -g : 0.0;
  }
  *ifail = residual( p, x, xl, xu ) <= 1.0e-9 * scale ? 0 : 2;
  return 0;
}
