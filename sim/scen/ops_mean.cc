// M15: mean of persistence diagrams.

#include "ops.hh"

#include <aleph/persistenceDiagrams/Mean.hh>
#include <aleph/persistenceDiagrams/PersistenceDiagram.hh>

#include <sstream>

namespace
{

using namespace ops;

struct Dot { double x, y; };
using Dots = std::vector<Dot>;

// Matches the points of a diagram with the points of another one, or with the
// diagonal (size of the other diagram), such that the sum of squares is least.
struct Matching
{
  const Dots& a;
  const Dots& b;
  std::vector<std::size_t> best, current;
  std::vector<bool> used;
  double cost = 1e300, second = 1e300;

  Matching( const Dots& a_, const Dots& b_ ) : a( a_ ), b( b_ ), current( a_.size() ), used( b_.size() ) { visit( 0, 0 ); }

  static double square( const Dot& p ) { return ( p.y - p.x ) * ( p.y - p.x ) / 4; }
  static double square( const Dot& p, const Dot& q )
  {
    auto d = std::max( std::abs( p.x - q.x ), std::abs( p.y - q.y ) );
    return d * d;
  }
  void visit( std::size_t i, double sum )
  {
    if( i == a.size() )
    {
      for( std::size_t j = 0; j < b.size(); j++ )
        if( !used[j] ) sum += square( b[j] );
      if( sum < cost ) { second = cost; cost = sum; best = current; }
      else second = std::min( second, sum );
      return;
    }
    current[i] = b.size();
    visit( i + 1, sum + square( a[i] ) );
    for( std::size_t j = 0; j < b.size(); j++ )
    {
      if( used[j] ) continue;
      used[j] = true;
      current[i] = j;
      visit( i + 1, sum + square( a[i], b[j] ) );
      used[j] = false;
    }
  }
};

enum Outcome { Good, Ambiguous, Endless };

Dots offDiagonal( const Dots& d )
{
  Dots r;
  for( auto&& p : d )
    if( p.x != p.y ) r.push_back( p );
  return r;
}

// The mean for a given start.
Outcome reference( const std::vector<Dots>& family, std::size_t start, Dots& y, unsigned& round )
{
  y = offDiagonal( family[start] );
  std::vector<double> costs;
  for( round = 0; round < 300; round++ )
  {
    std::vector<Matching> matchings;
    std::vector<double> now;
    for( auto&& d : family )
    {
      matchings.emplace_back( y, d );
      auto&& m = matchings.back();
      now.push_back( m.cost );
      if( m.second - m.cost < 1e-7 ) return Ambiguous;
    }
    if( round > 0 )
    {
      bool same = true;
      for( std::size_t i = 0; i < now.size(); i++ ) same = same && std::abs( now[i] - costs[i] ) < 1e-12;
      if( same ) return Good;
    }
    costs = now;
    Dots z;
    for( std::size_t i = 0; i < y.size(); i++ )
    {
      Dot s{ 0, 0 };
      auto middle = ( y[i].x + y[i].y ) / 2;
      for( std::size_t k = 0; k < family.size(); k++ )
      {
        auto j = matchings[k].best[i];
        s.x += j < family[k].size() ? family[k][j].x : middle;
        s.y += j < family[k].size() ? family[k][j].y : middle;
      }
      z.push_back( { s.x / double( family.size() ), s.y / double( family.size() ) } );
    }
    y = offDiagonal( z );
  }
  return Endless;
}

struct Mean : Op
{
  using D = aleph::PersistenceDiagram<double>;
  std::vector<Dots> family;
  std::vector<D> diagrams;
  std::size_t dimension;
  bool copies;
  std::vector<Outcome> outcome;
  std::vector<Dots> results;

  Mean()
  {
    // The matchings of this family alternate for ever.
    static const std::vector<Dots> alternating =
    {
      { { 0.69003677368164062, 3.5273590087890625 }, { 2.7066612243652344, 6.5987014770507812 }, { 0.46503448486328125, 3.4733543395996094 }, { 0.47266006469726562, 1.3087959289550781 } },
      { { 1.06793212890625, 3.8556365966796875 }, { 1.6235885620117188, 5.0446128845214844 }, { 1.6637039184570312, 3.6645011901855469 } },
      { { 1.8588409423828125, 4.3523750305175781 } }
    };
    bool fixed = sim::flip( 1, 16 );
    unsigned n = fixed ? 3 : 1 + unsigned( sim::choose( 5 ) ), most = n > 3 ? 3 : 4;
    dimension  = sim::choose( 3 );
    copies     = !fixed && sim::flip( 1, 4 );
    auto shift = double( sim::choose( 16 ) );
    bool inverted = sim::flip( 1, 5 );
    for( unsigned i = 0; i < n; i++ )
    {
      Dots d;
      if( fixed )
        for( auto&& p : alternating[i] ) d.push_back( { p.x + shift, p.y + shift } );
      else if( copies && i > 0 ) d = family[0];
      else
        for( unsigned k = unsigned( sim::choose( most + 1 ) ); k > 0; k-- )
        {
          auto x = double( sim::choose( 1u << 20 ) ) / double( 1u << 18 ), y = x + double( sim::choose( 1u << 20 ) ) / double( 1u << 18 );
          if( inverted ) std::swap( x, y );
          d.push_back( { x, y } );
        }
      family.push_back( d );
    }
    if( fixed ) sim::shuffle( family );
    for( auto&& d : family )
    {
      D e;
      e.setDimension( dimension );
      for( auto&& p : d ) e.add( p.x, p.y );
      diagrams.push_back( e );
    }
    for( unsigned i = 0; i < n; i++ )
    {
      Dots y;
      unsigned rounds = 0;
      outcome.push_back( reference( family, i, y, rounds ) );
#ifdef SIM_THREADS
      if( rounds > 12 && !fixed ) sim::discard();   // slow
#endif
      results.push_back( y );
      sim::count( outcome.back() == Good ? "starts with a unique outcome" : outcome.back() == Ambiguous ? "starts with several optimal matchings" : "starts without an end" );
    }
    sim::story( "%u diagrams of dimension %u%s: %s", n, unsigned( dimension ), copies ? ", all the same" : "", input().c_str() );
  }
  std::string input() const override
  {
    std::string s;
    for( auto&& d : diagrams )
    {
      s += "{";
      for( auto&& p : d ) s += "(" + number( p.x() ) + "," + number( p.y() ) + ")";
      s += "}";
    }
    return s;
  }
  std::string run( unsigned variant ) const override
  {
    auto m = variant & 1 ? aleph::mean( diagrams.begin(), diagrams.end() ) : aleph::mean( diagrams.data(), diagrams.data() + diagrams.size() );
    Calm q;
    std::string s = std::to_string( m.dimension() ) + "\n";
    for( auto&& p : m ) s += number( p.x() ) + " " + number( p.y() ) + "\n";
    return s;
  }
  static bool same( const Dots& a, const Dots& b )
  {
    if( a.size() != b.size() ) return false;
    for( std::size_t i = 0; i < a.size(); i++ )
      if( std::abs( a[i].x - b[i].x ) > 1e-6 || std::abs( a[i].y - b[i].y ) > 1e-6 ) return false;
    return true;
  }
  void judge( const std::string& r, unsigned ) const override
  {
    std::istringstream in( r );
    std::size_t d = 0;
    in >> d;
    Dots y;
    for( Dot p; in >> p.x >> p.y; ) y.push_back( p );
    if( d != dimension ) sim::violate( cls( "wrong" ), "dimension is " + std::to_string( d ) + " instead of " + std::to_string( dimension ) );
    if( copies && !same( y, offDiagonal( family[0] ) ) ) sim::violate( cls( "wrong" ), "the mean of copies is " + r );
    bool possible = false;
    for( std::size_t i = 0; i < family.size(); i++ ) possible = possible || outcome[i] != Good || same( y, results[i] );
    if( !possible ) sim::violate( cls( "wrong" ), "no start leads to " + r );
  }
};

Add<Mean> a1( "M15", "mean" );

} // namespace
