// Persistent intersection homology, taken literally: chains of allowable
// simplices with allowable boundary, ranks of the maps between all pairs of
// levels, points by inclusion and exclusion.

#ifndef INTERSECTION_HH__
#define INTERSECTION_HH__

#include "ops.hh"

#include <bitset>
#include <limits>
#include <map>
#include <vector>

namespace intersection
{

using ops::Cell;
using ops::Vertices;

template <std::size_t N> std::size_t rank( std::vector< std::bitset<N> > c )
{
  std::size_t r = 0;
  for( std::size_t i = 0; i < c.size(); i++ )
  {
    if( c[i].none() ) continue;
    r++;
    auto low = c[i]._Find_first();
    for( std::size_t j = i + 1; j < c.size(); j++ )
      if( c[j][low] ) c[j] ^= c[i];
  }
  return r;
}

// Combinations of the given chains whose image vanishes within the mask.
template <std::size_t N> std::vector< std::bitset<N> > kernel( std::vector< std::bitset<N> > chains, std::vector< std::bitset<N> > images, const std::bitset<N>& mask )
{
  std::vector< std::bitset<N> > r;
  for( std::size_t i = 0; i < chains.size(); i++ )
  {
    auto x = images[i] & mask;
    if( x.none() ) { r.push_back( chains[i] ); continue; }
    auto low = x._Find_first();
    for( std::size_t j = i + 1; j < chains.size(); j++ )
      if( images[j][low] ) { images[j] ^= images[i]; chains[j] ^= chains[i]; }
  }
  return r;
}

// Points off the diagonal by dimension; essential ones are infinite.
template <std::size_t N> std::map< std::size_t, std::vector< std::pair<double, double> > > points( const std::vector<Cell>& cs, const std::bitset<N>& allowable )
{
  using Chain = std::bitset<N>;

  std::map<Vertices, std::size_t> index;
  std::size_t top = 0;
  for( std::size_t i = 0; i < cs.size(); i++ )
  {
    index[ cs[i].v ] = i;
    top = std::max( top, cs[i].v.size() - 1 );
  }
  std::vector<Chain> faces( cs.size() );
  for( std::size_t i = 0; i < cs.size(); i++ )
    for( auto&& f : ops::boundary( cs[i].v ) ) faces[i].flip( index.at( f ) );
  auto image = [&] ( const Chain& c )
  {
    Chain r;
    for( std::size_t i = 0; i < cs.size(); i++ ) if( c[i] ) r ^= faces[i];
    return r;
  };

  std::set<double> distinct;
  for( auto&& c : cs ) distinct.insert( c.w );
  std::vector<double> levels( distinct.begin(), distinct.end() );
  auto m = levels.size();

  std::map< std::size_t, std::vector< std::pair<double, double> > > result;
  for( std::size_t d = 0; d <= top; d++ )
  {
    std::vector< std::vector<Chain> > cycles( m ), boundaries( m );
    for( std::size_t l = 0; l < m; l++ )
    {
      std::vector<Chain> c[2], b[2];
      for( std::size_t i = 0; i < cs.size(); i++ )
        for( std::size_t e = 0; e < 2; e++ )
          if( allowable[i] && cs[i].w <= levels[l] && cs[i].v.size() - 1 == d + e )
          {
            Chain x;
            x[i] = true;
            c[e].push_back( x );
            b[e].push_back( faces[i] );
          }
      cycles[l] = kernel( c[0], b[0], ~Chain() );
      for( auto&& x : kernel( c[1], b[1], ~allowable ) ) boundaries[l].push_back( image( x ) );
    }

    std::vector< std::vector<int> > beta( m, std::vector<int>( m, 0 ) );
    for( std::size_t b = 0; b < m; b++ )
    {
      auto r = int( rank( boundaries[b] ) );
      for( std::size_t a = 0; a <= b; a++ )
      {
        auto both = cycles[a];
        both.insert( both.end(), boundaries[b].begin(), boundaries[b].end() );
        beta[a][b] = int( rank( both ) ) - r;
      }
    }
    auto at = [&] ( std::size_t a, std::size_t b ) { return a ? beta[a-1][b] : 0; };

    auto& D = result[d];
    for( std::size_t a = 0; a < m; a++ )
    {
      for( std::size_t b = a + 1; b < m; b++ )
        for( int k = beta[a][b-1] - beta[a][b] - at( a, b - 1 ) + at( a, b ); k > 0; k-- )
          D.push_back( { levels[a], levels[b] } );
      for( int k = beta[a][m-1] - at( a, m - 1 ); k > 0; k-- )
        D.push_back( { levels[a], std::numeric_limits<double>::infinity() } );
    }
  }
  return result;
}

} // namespace intersection

#endif
