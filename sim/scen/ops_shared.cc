// Queries of shared, read-only objects.  What a query answers is recorded on
// an identical object before; it must not depend on who asks first, on how
// many ask at once or on memory that runs out meanwhile.

#include "ops.hh"

#include <aleph/containers/PointCloud.hh>

#include <aleph/geometry/Point.hh>

#include <aleph/math/AlgebraicSphere.hh>
#include <aleph/math/PiecewiseLinearFunction.hh>
#include <aleph/math/SparseMatrix.hh>
#include <aleph/math/StepFunction.hh>
#include <aleph/math/SymmetricMatrix.hh>

#include <aleph/persistenceDiagrams/PersistenceDiagram.hh>

#include <aleph/persistentHomology/PersistencePairing.hh>

#include <aleph/topology/BoundaryMatrix.hh>
#include <aleph/topology/Conversions.hh>
#include <aleph/topology/Mesh.hh>
#include <aleph/topology/Simplex.hh>
#include <aleph/topology/SimplicialComplex.hh>

#include <aleph/topology/representations/List.hh>
#include <aleph/topology/representations/Set.hh>
#include <aleph/topology/representations/Vector.hh>

#include <sstream>
#include <stdexcept>

namespace
{

using namespace ops;
namespace topo = aleph::topology;

double coordinate() { return 0.25 * double( sim::choose( 33 ) ) - 4.0; }

struct Sphere
{
  std::vector<double> c;
  aleph::math::AlgebraicSphere<double> s;

  static std::vector<double> draw()
  {
    std::vector<double> c( 3 + sim::choose( 4 ) );
    for( auto&& x : c ) x = coordinate();
    if( c.back() == 0 ) c.back() = 1;
    return c;
  }
  Sphere() : c( draw() ), s( c.begin(), c.end() ) { sim::story( "sphere %s", join( c ).c_str() ); }
  std::string input() const { return std::string(); }
  std::string run( unsigned variant ) const
  {
    return ask( variant, 4, [this]( unsigned k )
    {
      if( k == 0 )
      {
        auto x = s.centre();
        Calm q;
        return join( x );
      }
      auto x = k == 1 ? s.radius() : k == 2 ? s.gaussianCurvature() : s.meanCurvature();
      Calm q;
      return std::isnan( x ) ? std::string( "nan" ) : number( x );
    } );
  }
};

struct Cloud
{
  using PC = aleph::containers::PointCloud<double>;
  PC p, o;

  static PC draw( std::size_t d )
  {
    PC p( 1 + sim::choose( 6 ), d );
    for( std::size_t i = 0; i < p.size(); i++ )
    {
      std::vector<double> x( d );
      for( auto&& y : x ) y = coordinate();
      p.set( i, x.begin(), x.end() );
    }
    return p;
  }
  Cloud()
  {
    std::size_t d = 1 + sim::choose( 3 );
    p = draw( d );
    o = draw( d );
  }
  static std::string show( const PC& c )
  {
    std::string s = std::to_string( c.size() ) + "x" + std::to_string( c.dimension() );
    for( std::size_t i = 0; i < c.size() * c.dimension(); i++ ) s += " " + number( c.data()[i] );
    return s;
  }
  std::string input() const { return show( p ) + " and " + show( o ); }
  std::string run( unsigned variant ) const
  {
    return ask( variant, 7, [this]( unsigned k ) -> std::string
    {
      if( k == 0 )
      {
        std::vector<double> x;
        p.get( p.size() - 1, std::back_inserter( x ) );
        Calm q;
        return join( x );
      }
      if( k == 1 )
      {
        auto x = p[0];
        Calm q;
        return join( x );
      }
      if( k == 2 )
      {
        auto x = p + o;
        Calm q;
        return show( x );
      }
      if( k == 3 )
      {
        PC x( p );
        bool same = x == p;
        Calm q;
        return show( x ) + ( same ? " same" : " different" );
      }
      if( k == 4 )
      {
        PC x( o );
        x = p;
        Calm q;
        std::vector<double> y( p.dimension(), 100.0 );
        x.set( 0, y.begin(), y.end() );
        return std::string( x == p ? "same" : "different" ) + ( p == o ? " same" : " different" );
      }
      if( k == 5 )
      {
        try { p[ p.size() ]; return "no exception"; }
        catch( const std::runtime_error& ) { return "refused"; }
      }
      Calm q;
      std::ostringstream out;
      out << p;
      return out.str();
    } );
  }
};

struct Symmetric
{
  using M = aleph::math::SymmetricMatrix<double>;
  M m;

  Symmetric() : m( sim::choose( 6 ) )
  {
    for( std::size_t i = 0; i < m.numRows(); i++ )
      for( std::size_t j = i; j < m.numRows(); j++ ) m( i, j ) = coordinate();
  }
  static std::string show( const M& m )
  {
    std::string s;
    for( std::size_t i = 0; i < m.numRows(); i++ )
      for( std::size_t j = 0; j < m.numRows(); j++ ) s += " " + number( m( i, j ) );
    return s;
  }
  std::string input() const { return show( m ); }
  std::string run( unsigned variant ) const
  {
    return ask( variant, 4, [this]( unsigned k ) -> std::string
    {
      if( k == 0 )
      {
        M x( m );
        Calm q;
        return show( x );
      }
      if( k == 1 )
      {
        M x( 3 );
        x = m;
        if( x.numRows() ) x( 0, x.numRows() - 1 ) = 100;
        Calm q;
        return show( x );
      }
      if( k == 2 )
      {
        M x( 4 ), y( m );
        x.swap( y );
        Calm q;
        return show( x ) + "/" + show( y ).substr( 0, 0 ) + std::to_string( y.numRows() );
      }
      Calm q;
      return std::to_string( m.numRows() ) + ( m.empty() ? " empty" : "" );
    } );
  }
};

struct Sparse
{
  using M = aleph::math::SparseBinaryMatrix<unsigned>;
  unsigned n;
  M m;

  Sparse() : n( 1 + unsigned( sim::choose( 6 ) ) ), m( n )
  {
    for( unsigned i = unsigned( sim::choose( 3 * n ) ); i > 0; i-- ) m.set( unsigned( sim::choose( n ) ), unsigned( sim::choose( n ) ) );
    std::vector<unsigned> names;
    for( unsigned i = 0; i < n; i++ ) names.push_back( 10 + 3 * i );
    m.setIndices( names.begin(), names.end() );
  }
  std::string input() const { return std::string(); }
  std::string run( unsigned variant ) const
  {
    return ask( variant, 4, [this]( unsigned k ) -> std::string
    {
      std::string r;
      if( k == 0 )
      {
        std::vector< std::vector<unsigned> > columns( n );
        for( unsigned j = 0; j < n; j++ ) m.get( j, std::back_inserter( columns[j] ) );
        Calm q;
        for( auto&& c : columns )
        {
          std::sort( c.begin(), c.end() );
          r += join( c ) + ";";
        }
        return r;
      }
      if( k == 1 )
      {
        M x( m );
        Calm q;
        for( unsigned i = 0; i < n; i++ )
          for( unsigned j = 0; j < n; j++ ) r += x.get( i, j ) ? "1" : "0";
        return r;
      }
      if( k == 2 )
      {
        try { m.getIndex( n + 1 ); return "no exception"; }
        catch( const std::out_of_range& ) { return "refused"; }
      }
      Calm q;
      for( unsigned j = 0; j < n; j++ ) r += std::to_string( m.numEntries( j ) ) + "/" + std::to_string( m.getIndex( j ) ) + " ";
      return r + std::to_string( m.numColumns() );
    } );
  }
};

using Simplex = topo::Simplex<double, unsigned>;
using Complex = topo::SimplicialComplex<Simplex>;

struct Queries
{
  std::vector<Cell> c;
  Complex K;
  std::size_t at;

  Queries()
  {
    c  = filtration( randomSet( 7, 3, 7, labels() ) );
    K  = build<Complex>( c );
    at = sim::choose( c.size() );
  }
  std::string input() const { return ops::text( cells( K ) ); }
  std::string run( unsigned variant ) const
  {
    return ask( variant, 14, [this]( unsigned k ) -> std::string
    {
      switch( k )
      {
      case 0:
      {
        std::vector<unsigned> v;
        K.vertices( std::back_inserter( v ) );
        Calm q;
        return join( v );
      }
      case 1:
      {
        Complex L( K );
        bool same = L == K;
        Calm q;
        return ops::text( cells( L ) ) + ( same ? "same" : "different" );
      }
      case 2:
      {
        auto r = K.range( 1 );
        Calm q;
        std::string s;
        for( auto it = r.first; it != r.second; ++it ) s += ops::text( cell( *it ) ) + ";";
        return s;
      }
      case 3:
      {
        Simplex s( c[at].v.begin(), c[at].v.end() );
        auto i    = K.index( s );
        auto it   = K.find( s );
        bool have = K.contains( s );
        Calm q;
        return std::to_string( i ) + " " + ops::text( cell( *it ) ) + ( have ? " contained" : "" );
      }
      case 4:
      {
        Simplex s( { 97u, 98u } );
        bool have = K.contains( s ), end = K.find( s ) == K.end();
        return have || !end ? "found" : "not found";
      }
      case 5:
      {
        Complex L;
        L = K;
        L.push_back( Simplex( 99u ) );
        bool same = L == K;
        Calm q;
        return std::to_string( L.size() ) + ( same ? " same" : " different" );
      }
      case 6:
      {
        Complex L( K );
        L.sort( []( const Simplex& a, const Simplex& b ) { return a.dimension() != b.dimension() ? a.dimension() > b.dimension() : a < b; } );
        Calm q;
        return ops::text( cells( L ) );
      }
      case 7:
      {
        Simplex x = K[at];
        std::vector<Simplex> f( x.begin_boundary(), x.end_boundary() );
        Calm q;
        std::string s;
        for( auto&& y : f ) s += ops::text( cell( y ) ) + ";";
        return s;
      }
      case 8:
      {
        Complex L( K );
        L.remove_without_validation( K[at] );
        Calm q;
        return std::to_string( L.size() );
      }
      case 9:
      {
        Complex L( K );
        L.createMissingFaces();
        Calm q;
        return std::to_string( L.size() );
      }
      case 10:
      {
        Complex L( K );
        L.recalculateWeights();
        Calm q;
        return ops::text( cells( L ) );
      }
      case 11:
      {
        auto M = topo::makeBoundaryMatrix( K );
        std::string s;
        for( unsigned j = 0; j < unsigned( M.getNumColumns() ); j++ )
        {
          auto column = M.getColumn( j );
          Calm q;
          std::sort( column.begin(), column.end() );
          s += join( column ) + ";";
        }
        return s;
      }
      case 12:
      {
        auto h = std::hash<Simplex>()( K[at] );
        bool less = K[at] < K[0], equal = K[at] == K[0];
        return h == std::hash<Simplex>()( K[at] ) ? std::string( less ? "less" : equal ? "equal" : "greater" ) : "unstable";
      }
      default:
      {
        Calm q;
        std::ostringstream out;
        out << K;
        return std::to_string( K.size() ) + " " + std::to_string( K.dimension() ) + ( K.empty() ? " empty " : " " ) + out.str();
      }
      }
    } );
  }
};

template <class R> struct Matrix
{
  using M = topo::BoundaryMatrix<R>;
  M m;

  Matrix()
  {
    auto c = filtration( randomSet( 6, 3, 6, labels() ) );
    m = topo::makeBoundaryMatrix<R>( build<Complex>( c ) );
  }
  static std::string show( const M& m )
  {
    std::string s;
    for( unsigned j = 0; j < unsigned( m.getNumColumns() ); j++ )
    {
      auto column = m.getColumn( j );
      s += std::to_string( m.getDimension( j ) ) + ":" + join( column ) + ";";
    }
    return s;
  }
  std::string input() const { return show( m ); }
  std::string run( unsigned variant ) const
  {
    return ask( variant, 5, [this]( unsigned k ) -> std::string
    {
      if( k == 0 )
      {
        M x( m );
        bool same = x == m;
        Calm q;
        return show( x ) + ( same ? "same" : "different" );
      }
      if( k == 1 )
      {
        auto x = m.dualize();
        Calm q;
        return show( x ) + ( x.isDualized() ? "dual" : "primal" );
      }
      if( k == 2 )
      {
        std::string s;
        for( unsigned j = 0; j < unsigned( m.getNumColumns() ); j++ )
        {
          auto p = m.getMaximumIndex( j );
          Calm q;
          s += p.second ? std::to_string( p.first ) + " " : "- ";
        }
        return s;
      }
      if( k == 3 )
      {
        M x( m );
        if( x.getNumColumns() > 1 ) x.addColumns( 0, 1 );
        Calm q;
        return show( x );
      }
      Calm q;
      return std::to_string( m.getNumColumns() ) + " " + std::to_string( m.getDimension() );
    } );
  }
};

struct Surface
{
  using M = topo::Mesh<double, double>;
  M m;
  unsigned n;

  Surface()
  {
    // A fan, perhaps closed, and perhaps a triangle of its own.
    n = 3 + unsigned( sim::choose( 4 ) );
    unsigned centre = n, extra = sim::flip( 1, 2 ) ? 3 : 0;
    for( unsigned i = 0; i < n + 1 + extra; i++ ) m.addVertex( coordinate(), coordinate(), coordinate(), coordinate(), i );
    for( unsigned i = 0; i + 1 < n; i++ ) face( i, i + 1, centre );
    if( sim::flip( 1, 2 ) ) face( n - 1, 0, centre );
    if( extra ) face( n + 1, n + 2, n + 3 );
    n += 1 + extra;
  }
  void face( unsigned a, unsigned b, unsigned c )
  {
    std::vector<M::Index> f = { a, b, c };
    m.addFace( f.begin(), f.end() );
  }
  std::string input() const
  {
    std::string s;
    for( auto&& f : m.faces() ) s += join( f ) + ";";
    return s;
  }
  static std::string show( std::vector<M::Index> v )
  {
    std::sort( v.begin(), v.end() );
    return join( v );
  }
  std::string run( unsigned variant ) const
  {
    return ask( variant, 10, [this]( unsigned k ) -> std::string
    {
      std::string s;
      switch( k )
      {
      case 0:
      {
        auto v = m.vertices();
        Calm q;
        return show( v );
      }
      case 1:
      {
        auto v = m.faces();
        Calm q;
        for( auto&& f : v ) s += join( f ) + ";";
        return s;
      }
      case 2:
      {
        auto x = m.star( n / 2 );
        Calm q;
        for( auto&& f : x.faces() ) s += join( f ) + ";";
        return show( x.vertices() ) + "/" + s;
      }
      case 3:
        for( unsigned i = 0; i < n; i++ )
        {
          auto v = m.link( i );
          Calm q;
          s += show( v ) + ";";
        }
        return s;
      case 4:
        for( unsigned i = 0; i < n; i++ )
        {
          auto v = m.getLowerNeighbours( i );
          Calm q;
          s += show( v ) + ";";
        }
        return s;
      case 5:
        for( unsigned i = 0; i < n; i++ )
        {
          auto v = m.getHigherNeighbours( i );
          Calm q;
          s += show( v ) + ";";
        }
        return s;
      case 6:
      {
        Calm q;
        for( unsigned i = 0; i < n; i++ )
          for( unsigned j = 0; j < n; j++ ) s += m.hasEdge( i, j ) ? "1" : "0";
        return s;
      }
      case 7:
      {
        auto x = m.numConnectedComponents();
        return std::to_string( x );
      }
      case 8:
      {
        M x( m );
        auto f = x.numFaces();
        Calm q;
        return std::to_string( x.numVertices() ) + " " + std::to_string( f );
      }
      default:
      {
        Calm q;
        for( unsigned i = 0; i < n; i++ ) s += number( m.data( i ) ) + " ";
        return s;
      }
      }
    } );
  }
};

struct DiagramQueries
{
  using D = aleph::PersistenceDiagram<double>;
  D d;

  DiagramQueries()
  {
    d.setDimension( sim::choose( 3 ) );
    for( unsigned i = unsigned( sim::choose( 8 ) ); i > 0; i-- )
    {
      double x = 0.5 * double( sim::choose( 5 ) );
      if( sim::flip( 1, 5 ) ) d.add( x );
      else d.add( x, x + 0.5 * double( sim::choose( 5 ) ) );
    }
  }
  static std::string show( const D& d )
  {
    std::string s = std::to_string( d.dimension() ) + ":";
    for( auto&& p : d ) s += number( p.x() ) + " " + number( p.y() ) + ";";
    return s;
  }
  std::string input() const { return show( d ); }
  std::string run( unsigned variant ) const
  {
    return ask( variant, 7, [this]( unsigned k ) -> std::string
    {
      switch( k )
      {
      case 0:
      {
        D x( d );
        bool same = x == d;
        Calm q;
        return show( x ) + ( same ? "same" : "different" );
      }
      case 1:
      {
        D x( d );
        x.removeDiagonal();
        Calm q;
        return show( x );
      }
      case 2:
      {
        D x( d );
        x.removeUnpaired();
        bool same = x != d;
        Calm q;
        return show( x ) + ( same ? "different" : "same" );
      }
      case 3:
      {
        D x( d );
        x.removeDuplicates();
        Calm q;
        return show( x );
      }
      case 4:
      {
        D x( d );
        x.merge( d );
        Calm q;
        return show( x );
      }
      case 5:
      {
        auto b = d.betti();
        return std::to_string( b );
      }
      default:
      {
        Calm q;
        std::ostringstream out;
        out << d;
        return std::to_string( d.size() ) + ( d.empty() ? " empty " : " " ) + out.str();
      }
      }
    } );
  }
};

struct Pairing
{
  using P = aleph::PersistencePairing<unsigned>;
  P p;

  Pairing()
  {
    unsigned n = unsigned( sim::choose( 8 ) );
    for( unsigned i = 0; i < n; i++ )
    {
      if( sim::flip( 1, 4 ) ) p.add( 2 * i );
      else p.add( 2 * i, 2 * i + 1 + unsigned( sim::choose( 3 ) ) );
    }
  }
  static std::string show( const P& p )
  {
    std::string s;
    for( auto&& x : p ) s += std::to_string( x.first ) + "-" + std::to_string( x.second ) + ";";
    return s;
  }
  std::string input() const { return show( p ); }
  std::string run( unsigned variant ) const
  {
    return ask( variant, 4, [this]( unsigned k ) -> std::string
    {
      if( k == 0 )
      {
        P x( p );
        bool same = x == p;
        Calm q;
        return show( x ) + ( same ? "same" : "different" );
      }
      if( k == 1 )
      {
        P x( p );
        if( !x.empty() ) x.erase( x.begin() );
        x.add( 100, 200 );
        bool same = x != p;
        Calm q;
        return show( x ) + ( same ? "different" : "same" );
      }
      Calm q;
      std::string s;
      if( k == 2 )
      {
        for( unsigned i = 0; i < 17; i++ ) s += std::string( p.contains( i ) ? "c" : "." ) + ( p.contains( i, i + 1 ) ? "p" : "." );
        return s;
      }
      std::ostringstream out;
      out << p;
      return std::to_string( p.size() ) + " " + out.str();
    } );
  }
};

struct Functions
{
  using S = aleph::math::StepFunction<double>;
  using L = aleph::math::PiecewiseLinearFunction<double>;
  S s, t;
  L f, g;

  static S step()
  {
    S s;
    double x = -2;
    for( unsigned i = unsigned( sim::choose( 5 ) ); i > 0; i-- )
    {
      double y = x + 0.5 + 0.5 * double( sim::choose( 3 ) );
      s.add( x, y, 1.0 + double( sim::choose( 4 ) ) );
      x = y + 0.5;
    }
    return s;
  }
  static L linear()
  {
    std::vector< std::pair<double, double> > v;
    double x = -1;
    for( unsigned i = 2 + unsigned( sim::choose( 5 ) ); i > 0; i-- )
    {
      v.push_back( { x, double( sim::choose( 9 ) ) - 4 } );
      x += 0.5 + 0.5 * double( sim::choose( 3 ) );
    }
    return L( v.begin(), v.end() );
  }
  Functions() : s( step() ), t( step() ), f( linear() ), g( linear() ) {}
  static std::string show( const S& s )
  {
    std::string r;
    for( double x = -3; x < 8; x += 0.25 ) r += number( s( x ) ) + " ";
    return r;
  }
  static std::string show( const L& s )
  {
    std::string r;
    for( double x = -3; x < 8; x += 0.25 ) r += number( s( x ) ) + " ";
    return r;
  }
  std::string input() const { return show( s ) + show( t ) + show( f ) + show( g ); }
  std::string run( unsigned variant ) const
  {
    return ask( variant, 11, [this]( unsigned k ) -> std::string
    {
      switch( k )
      {
      case 0: { auto x = s + t; Calm q; return show( x ); }
      case 1: { auto x = s - t; Calm q; return show( x ); }
      case 2: { auto x = s * 2.0; Calm q; return show( x ); }
      case 3: { auto x = s + 1.0; Calm q; return show( x ); }
      case 4: { std::vector<double> x; s.domain( std::back_inserter( x ) ); Calm q; return join( x ); }
      case 5: { auto x = f + g; Calm q; return show( x ); }
      case 6: { auto x = f - g; Calm q; return show( x ); }
      case 7: { auto x = -f * 3.0; Calm q; return show( x ); }
      case 8: { auto x = f.integral( 2.0 ); Calm q; return number( x ); }
      case 9: { L x( f ); x.abs(); bool same = x == f; Calm q; return show( x ) + ( same ? "same" : "different" ); }
      default:
      {
        Calm q;
        return number( s.integral() ) + " " + number( s.max() ) + " " + number( s.sup() ) + " " + number( f.max() ) + " " + number( f.sup() );
      }
      }
    } );
  }
};

struct Coordinates
{
  using P = aleph::geometry::Point<double>;
  std::vector<P> p;

  Coordinates()
  {
    std::size_t d = 1 + sim::choose( 3 );
    for( unsigned i = 2 + unsigned( sim::choose( 4 ) ); i > 0; i-- )
    {
      std::vector<double> x( d );
      for( auto&& y : x ) y = double( sim::choose( 3 ) );
      p.push_back( P( x.begin(), x.end() ) );
    }
  }
  std::string input() const
  {
    std::string s;
    for( auto&& x : p ) s += join( x ) + ";";
    return s;
  }
  std::string run( unsigned variant ) const
  {
    return ask( variant, 3, [this]( unsigned k ) -> std::string
    {
      if( k == 0 )
      {
        std::vector<P> x( p );
        std::sort( x.begin(), x.end() );
        Calm q;
        std::string s;
        for( auto&& y : x ) s += join( y ) + ";";
        return s;
      }
      if( k == 1 )
      {
        std::set<P> x( p.begin(), p.end() );
        return std::to_string( x.size() );
      }
      Calm q;
      std::ostringstream out;
      for( auto&& x : p ) out << x << ( x == p[0] ? "=" : "!" );
      return out.str();
    } );
  }
};

namespace rep = aleph::topology::representations;

Add< Shared<Sphere> >                       a0( "", "sphere queries", 3 );
Add< Shared<Cloud> >                        a1( "", "point cloud queries", 3 );
Add< Shared<Symmetric> >                    a2( "", "symmetric matrix queries", 2 );
Add< Shared<Sparse> >                       a3( "", "sparse matrix queries", 2 );
Add< Shared<Queries> >                      a4( "", "complex queries", 6 );
Add< Shared< Matrix< rep::Vector<unsigned> > > > a5( "", "boundary matrix queries", 2 );
Add< Shared< Matrix< rep::Set<unsigned> > > >    a6( "", "boundary matrix queries (sets)", 1 );
Add< Shared< Matrix< rep::List<unsigned> > > >   a7( "", "boundary matrix queries (lists)", 1 );
Add< Shared<Surface> >                      a8( "", "mesh queries", 4 );
Add< Shared<DiagramQueries> >               a9( "", "diagram queries", 3 );
Add< Shared<Pairing> >                      b0( "", "pairing queries", 2 );
Add< Shared<Functions> >                    b1( "", "function queries", 3 );
Add< Shared<Coordinates> >                  b2( "", "point queries", 2 );

} // namespace
