// Stand-in for So-bogus (not vendored in /repo): the interface that scisim/ConstrainedMaps/bogus uses, with a small
// deterministic block Gauss-Seidel for the Coulomb problem behind it. H may be filled by several (simulated) threads.
#ifndef VERIF_SOBOGUS_STUB_HPP
#define VERIF_SOBOGUS_STUB_HPP
#include <Eigen/Core>
#include <Eigen/LU>
#include <algorithm>
#include <cassert>
#include <cmath>
#include <cstdlib>
#include <iostream>
#include <map>
#include <vector>
extern "C" void simYield();
namespace bogus
{

// rows of blocks; each row keeps its blocks keyed by block column
class BlockMatrix
{
public:
  void reserve( std::size_t ) {}
  void setRows( const unsigned n ) { m_nr = n; m_rdim = 0; m_rows.assign( n, Row() ); }
  void setRows( const unsigned n, const unsigned dim ) { m_nr = n; m_rdim = dim; m_rows.assign( n, Row() ); }
  void setCols( const unsigned n ) { m_nc = n; m_cdim = 0; }
  void setCols( const unsigned n, const unsigned dim ) { m_nc = n; m_cdim = dim; }
  Eigen::MatrixXd& insertBack( const unsigned r, const unsigned c ) { return m_rows[r][c]; }
  // Each thread writes its own block row
  Eigen::MatrixXd& insert( const unsigned r, const unsigned c ) { simYield(); Eigen::MatrixXd& b = m_rows[r][c]; simYield(); return b; }
  void finalize()
  {
    for( const Row& row : m_rows )
    {
      for( const auto& e : row )
      {
        if( m_rdim == 0 ) { m_rdim = unsigned( e.second.rows() ); }
        if( m_cdim == 0 ) { m_cdim = unsigned( e.second.cols() ); }
      }
    }
  }
  void cacheTranspose() {}
  unsigned rowsOfBlocks() const { return m_nr; }
  unsigned colsOfBlocks() const { return m_nc; }
  unsigned cols() const { return m_nc * m_cdim; }
  unsigned rows() const { return m_nr * m_rdim; }
  unsigned rdim() const { return m_rdim; }
  unsigned cdim() const { return m_cdim; }
  typedef std::map<unsigned,Eigen::MatrixXd> Row;
  const std::vector<Row>& data() const { return m_rows; }
  std::vector<Row>& data() { return m_rows; }
  struct Transposed { const BlockMatrix* m; };
  Transposed transpose() const { return Transposed{ this }; }
private:
  std::vector<Row> m_rows;
  unsigned m_nr = 0, m_nc = 0, m_rdim = 0, m_cdim = 0;
};

template<typename D>
Eigen::VectorXd operator*( const BlockMatrix& A, const Eigen::MatrixBase<D>& x_in )
{
  const Eigen::VectorXd x = x_in;
  Eigen::VectorXd y = Eigen::VectorXd::Zero( A.rows() );
  for( unsigned r = 0; r < A.rowsOfBlocks(); ++r )
  {
    for( const auto& e : A.data()[r] )
    {
      y.segment( r * A.rdim(), A.rdim() ) += e.second * x.segment( e.first * A.cdim(), A.cdim() );
    }
  }
  return y;
}

template<typename D>
Eigen::VectorXd operator*( const BlockMatrix::Transposed& T, const Eigen::MatrixBase<D>& x_in )
{
  const BlockMatrix& A = *T.m;
  const Eigen::VectorXd x = x_in;
  Eigen::VectorXd y = Eigen::VectorXd::Zero( A.cols() );
  for( unsigned r = 0; r < A.rowsOfBlocks(); ++r )
  {
    for( const auto& e : A.data()[r] )
    {
      y.segment( e.first * A.cdim(), A.cdim() ) += e.second.transpose() * x.segment( r * A.rdim(), A.rdim() );
    }
  }
  return y;
}

template<unsigned Dimension>
struct PrimalFrictionProblem
{
  BlockMatrix M, E, H, MInv;
  const double* f = nullptr;
  const double* w = nullptr;
  const double* mu = nullptr;
  void computeMInv()
  {
    MInv.setRows( M.rowsOfBlocks(), M.rdim() );
    MInv.setCols( M.colsOfBlocks(), M.cdim() );
    for( unsigned r = 0; r < M.rowsOfBlocks(); ++r )
    {
      for( const auto& e : M.data()[r] )
      {
        MInv.insertBack( r, e.first ) = e.second.inverse();
      }
    }
    MInv.finalize();
  }
};

struct StubColoring
{
  std::vector<unsigned> permutation;
  template<typename T> void update( const bool, const T& W )
  {
    permutation.resize( W.n );
    for( unsigned i = 0; i < W.n; ++i ) { permutation[i] = i; }
  }
  void resetPermutation() {}
};

template<unsigned Dimension>
struct DualMatrix
{
  unsigned n = 0;
  Eigen::MatrixXd A;
  void cacheTranspose() {}
};

template<unsigned Dimension>
class StubGaussSeidel
{
public:
  void setTol( const double& t ) { m_tol = t; }
  void setMaxIters( const unsigned i ) { m_max_iters = i; }
  void setEvalEvery( const unsigned e ) { m_eval_every = e; }
  void setMaxThreads( const unsigned ) {}
  void setAutoRegularization( const double& ) {}
  void useInfinityNorm( const bool b ) { m_inf = b; }
  StubColoring& coloring() { return m_coloring; }
  void setMatrix( const DualMatrix<Dimension>& ) {}
  double m_tol = 1.0e-6;
  unsigned m_max_iters = 250;
  unsigned m_eval_every = 25;
  bool m_inf = false;
private:
  StubColoring m_coloring;
};

template<unsigned Dimension>
struct DualFrictionProblem
{
  typedef StubGaussSeidel<Dimension> GaussSeidelType;
  DualMatrix<Dimension> W;
  Eigen::VectorXd b;
  Eigen::VectorXd mu;

  void computeFrom( const PrimalFrictionProblem<Dimension>& p )
  {
    const unsigned n = p.H.rowsOfBlocks();
    W.n = n;
    Eigen::MatrixXd H = Eigen::MatrixXd::Zero( n * Dimension, p.H.cols() );
    for( unsigned r = 0; r < n; ++r )
    {
      for( const auto& e : p.H.data()[r] )
      {
        H.block( r * Dimension, e.first * p.H.cdim(), Dimension, p.H.cdim() ) += e.second;
      }
    }
    Eigen::MatrixXd Minv = Eigen::MatrixXd::Zero( p.H.cols(), p.H.cols() );
    for( unsigned r = 0; r < p.MInv.rowsOfBlocks(); ++r )
    {
      for( const auto& e : p.MInv.data()[r] )
      {
        Minv.block( r * p.MInv.rdim(), e.first * p.MInv.cdim(), p.MInv.rdim(), p.MInv.cdim() ) = e.second;
      }
    }
    W.A = H * Minv * H.transpose();
    const Eigen::VectorXd f = Eigen::VectorXd::Map( p.f, p.H.cols() );
    const Eigen::VectorXd w = Eigen::VectorXd::Map( p.w, n * Dimension );
    b = p.E.transpose() * w;
    b -= H * ( Minv * f );
    mu = Eigen::VectorXd::Map( p.mu, n );
  }

  void undoPermutation() {}
  template<typename T> void applyPermutation( const T& ) {}

  static void project( Eigen::VectorXd& r, const double m )
  {
    double t = 0.0;
    for( unsigned i = 1; i < Dimension; ++i ) { t += r( i ) * r( i ); }
    t = std::sqrt( t );
    if( r( 0 ) >= 0.0 && t <= m * r( 0 ) ) { return; }
    if( m * t <= -r( 0 ) ) { r.setZero(); return; }
    const double a = ( r( 0 ) + m * t ) / ( 1.0 + m * m );
    r( 0 ) = a;
    for( unsigned i = 1; i < Dimension; ++i ) { r( i ) *= m * a / t; }
  }

  Eigen::VectorXd localStep( const unsigned c, const Eigen::VectorXd& u, const Eigen::VectorXd& rc ) const
  {
    double rho = 0.0;
    for( unsigned i = 0; i < Dimension; ++i ) { rho += W.A( c * Dimension + i, c * Dimension + i ); }
    rho = rho > 0.0 ? 1.0 / rho : 0.0;
    double t = 0.0;
    for( unsigned i = 1; i < Dimension; ++i ) { t += u( i ) * u( i ); }
    Eigen::VectorXd v = rc - rho * u;
    v( 0 ) -= rho * mu( c ) * std::sqrt( t );
    project( v, mu( c ) );
    return v;
  }

  double residual( const Eigen::VectorXd& r, const bool inf ) const
  {
    const Eigen::VectorXd u = W.A * r + b;
    double res = 0.0;
    for( unsigned c = 0; c < W.n; ++c )
    {
      const Eigen::VectorXd rc = r.segment( c * Dimension, Dimension );
      const Eigen::VectorXd d = localStep( c, u.segment( c * Dimension, Dimension ), rc ) - rc;
      res = inf ? std::max( res, d.squaredNorm() ) : res + d.squaredNorm();
    }
    return inf ? res : res / ( 1.0 + W.n );
  }

  double solveWith( GaussSeidelType& gs, double* r_data, unsigned& num_iterations, const bool ) const
  {
    Eigen::VectorXd r = Eigen::VectorXd::Map( r_data, W.n * Dimension );
    double res = residual( r, gs.m_inf );
    num_iterations = 0;
    const unsigned eval = std::max( 1u, gs.m_eval_every );
    while( res > gs.m_tol && num_iterations < gs.m_max_iters )
    {
      for( unsigned c = 0; c < W.n; ++c )
      {
        for( unsigned inner = 0; inner < 4; ++inner )
        {
          const Eigen::VectorXd u = W.A.block( c * Dimension, 0, Dimension, W.n * Dimension ) * r + b.segment( c * Dimension, Dimension );
          const Eigen::VectorXd rn = localStep( c, u, r.segment( c * Dimension, Dimension ) );
          r.segment( c * Dimension, Dimension ) = rn;
        }
      }
      ++num_iterations;
      if( num_iterations % eval == 0 ) { res = residual( r, gs.m_inf ); }
    }
    res = residual( r, gs.m_inf );
    Eigen::VectorXd::Map( r_data, W.n * Dimension ) = r;
    return res;
  }

  double evalWith( const GaussSeidelType& gs, const double* r_data ) const
  {
    const Eigen::VectorXd r = Eigen::VectorXd::Map( r_data, W.n * Dimension );
    return residual( r, gs.m_inf );
  }
};

}
#endif
