// Smallest enclosing balls.

#ifndef BALLS_HH__
#define BALLS_HH__

#include <cmath>
#include <utility>
#include <vector>

namespace ops
{

inline double separation( const std::vector<double>& a, const std::vector<double>& b )
{
  double s = 0;
  for( std::size_t i = 0; i < a.size(); i++ ) s += ( a[i] - b[i] ) * ( a[i] - b[i] );
  return std::sqrt( s );
}

// Radius of the smallest ball through a set of points in their affine hull,
// or a negative number if they are not affinely independent.
inline double sphere( const std::vector< std::vector<double> >& p, std::vector<double>& centre )
{
  std::size_t k = p.size() - 1, d = p[0].size();
  std::vector< std::vector<double> > A( k, std::vector<double>( k + 1 ) );
  for( std::size_t i = 0; i < k; i++ )
  {
    for( std::size_t j = 0; j < k; j++ )
    {
      double s = 0;
      for( std::size_t c = 0; c < d; c++ ) s += ( p[i+1][c] - p[0][c] ) * ( p[j+1][c] - p[0][c] );
      A[i][j] = 2 * s;
    }
    A[i][k] = A[i][i] / 2;
  }
  for( std::size_t i = 0; i < k; i++ )
  {
    std::size_t pivot = i;
    for( std::size_t r = i; r < k; r++ ) if( std::abs( A[r][i] ) > std::abs( A[pivot][i] ) ) pivot = r;
    if( std::abs( A[pivot][i] ) < 1e-9 ) return -1;
    std::swap( A[i], A[pivot] );
    for( std::size_t r = 0; r < k; r++ )
    {
      if( r == i ) continue;
      double f = A[r][i] / A[i][i];
      for( std::size_t c = i; c <= k; c++ ) A[r][c] -= f * A[i][c];
    }
  }
  centre = p[0];
  for( std::size_t i = 0; i < k; i++ )
    for( std::size_t c = 0; c < d; c++ ) centre[c] += A[i][k] / A[i][i] * ( p[i+1][c] - p[0][c] );
  return separation( centre, p[0] );
}

inline double enclosingRadius( const std::vector< std::vector<double> >& p )
{
  double best = 1e300;
  for( unsigned mask = 1; mask < ( 1u << p.size() ); mask++ )
  {
    std::vector< std::vector<double> > s;
    for( std::size_t i = 0; i < p.size(); i++ ) if( mask & ( 1u << i ) ) s.push_back( p[i] );
    if( s.size() > p[0].size() + 1 ) continue;
    std::vector<double> centre;
    double r = sphere( s, centre );
    if( r < 0 || r >= best ) continue;
    bool inside = true;
    for( auto&& x : p ) inside = inside && separation( x, centre ) <= r + 1e-9;
    if( inside ) best = r;
  }
  return best;
}

} // namespace ops

#endif
