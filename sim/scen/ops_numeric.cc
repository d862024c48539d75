// Numerical and auxiliary computations without a property of their own: they
// take part in the checks of reproducibility, memory and threads.

#include "ops.hh"

#include <aleph/containers/DataDescriptors.hh>
#include <aleph/containers/DimensionalityEstimators.hh>
#include <aleph/containers/FractalDimension.hh>
#include <aleph/containers/MeanShift.hh>
#include <aleph/containers/PointCloud.hh>

#include <aleph/geometry/BruteForce.hh>
#include <aleph/geometry/CoverTree.hh>
#include <aleph/geometry/FLANN.hh>
#include <aleph/geometry/HeatKernel.hh>
#include <aleph/geometry/TangentSpace.hh>

#include <aleph/geometry/distances/Euclidean.hh>
#include <aleph/geometry/distances/Manhattan.hh>

#include <aleph/math/Combinations.hh>
#include <aleph/math/KahanSummation.hh>
#include <aleph/math/KernelDensityEstimator.hh>
#include <aleph/math/PrincipalComponentAnalysis.hh>
#include <aleph/math/Quantiles.hh>
#include <aleph/math/Statistics.hh>

#include <aleph/persistenceDiagrams/PersistenceDiagram.hh>

#include <aleph/persistenceDiagrams/kernels/KernelEmbedding.hh>
#include <aleph/persistenceDiagrams/kernels/MultiScaleKernel.hh>

#include <aleph/persistentHomology/Calculation.hh>
#include <aleph/persistentHomology/EulerCharacteristic.hh>
#include <aleph/persistentHomology/PhiPersistence.hh>

#include <aleph/topology/BarycentricSubdivision.hh>
#include <aleph/topology/CombinatorialCurvature.hh>
#include <aleph/topology/FloydWarshall.hh>
#include <aleph/topology/Partitions.hh>
#include <aleph/topology/Simplex.hh>
#include <aleph/topology/SimplicialComplex.hh>
#include <aleph/topology/Skeleton.hh>

#include <aleph/topology/filtrations/Data.hh>
#include <aleph/topology/filtrations/Degree.hh>
#include <aleph/topology/filtrations/LowerStar.hh>
#include <aleph/topology/filtrations/UpperStar.hh>

#include <aleph/utilities/ContainerOperators.hh>
#include <aleph/utilities/Format.hh>
#include <aleph/utilities/String.hh>
#include <aleph/utilities/UnorderedSetOperations.hh>
#include <aleph/utilities/Values.hh>

#include <iostream>
#include <stdexcept>

namespace
{

using namespace ops;
namespace topo = aleph::topology;
namespace cont = aleph::containers;
namespace geo  = aleph::geometry;
namespace dist = aleph::geometry::distances;

std::string show( double x ) { return std::isnan( x ) ? std::string( "nan" ) : number( x ); }

template <class T> std::string list( const T& v )
{
  std::string s;
  for( auto&& x : v ) s += show( double( x ) ) + " ";
  return s;
}

double coordinate() { return 0.25 * double( sim::choose( 33 ) ) - 4.0; }

// -- point clouds ---------------------------------------------------------

using PC = cont::PointCloud<double>;
using Euclidean = dist::Euclidean<double>;
using Manhattan = dist::Manhattan<double>;

struct OnCloud
{
  PC p;
  unsigned n, k;

  explicit OnCloud( unsigned least = 3 )
  {
    n = least + unsigned( sim::choose( 7 ) );
    std::size_t d = 1 + sim::choose( 3 );
    p = PC( n, d );
    for( unsigned i = 0; i < n; i++ )
    {
      std::vector<double> x( d );
      for( auto&& y : x ) y = coordinate();
      p.set( i, x.begin(), x.end() );
    }
    k = 1 + unsigned( sim::choose( n - 1 ) );
    sim::story( "cloud %s, %u neighbours", input().c_str(), k );
  }
  std::string input() const
  {
    std::string s = std::to_string( p.size() ) + "x" + std::to_string( p.dimension() );
    for( std::size_t i = 0; i < p.size() * p.dimension(); i++ ) s += " " + number( p.data()[i] );
    return s;
  }
};

struct Descriptors : OnCloud
{
  double h;
  Descriptors() { h = 0.25 + 0.25 * double( sim::choose( 8 ) ); }
  std::string run( unsigned variant ) const
  {
    return ask( variant, 7, [this]( unsigned q ) -> std::string
    {
      std::vector<double> r;
      if( q == 0 ) r = cont::eccentricities<Euclidean>( p );
      if( q == 1 ) r = cont::eccentricities<Manhattan>( p, 0 );
      if( q == 2 ) r = cont::eccentricities<Euclidean>( p, 2 );
      if( q == 3 ) r = cont::estimateDensityTruncatedGaussian( p, h );
      if( q == 4 ) r = cont::estimateDensityDistanceToMeasure<Euclidean>( p, k );
      if( q == 5 ) r = cont::estimateDensityDistanceToMeasure<Manhattan>( p, k );
      if( q == 6 )
      {
        auto c = cont::estimateLensDataDepth<Euclidean>( p );
        Calm calm;
        return list( c );
      }
      Calm calm;
      return list( r );
    } );
  }
};

struct Dimensions : OnCloud
{
  unsigned k2;
  Dimensions() : OnCloud( 5 ) { k = 2 + unsigned( sim::choose( n - 4 ) ); k2 = k + 1 + unsigned( sim::choose( 2 ) ); }
  std::string run( unsigned variant ) const
  {
    using Wrapper = geo::BruteForce<PC, Euclidean>;
    return ask( variant, 6, [this]( unsigned q ) -> std::string
    {
      std::vector<double> r;
      if( q == 0 ) r = cont::estimateLocalDimensionalityNearestNeighbours<Euclidean, PC, Wrapper>( p, k );
      if( q == 1 ) r = cont::estimateLocalDimensionalityNearestNeighbours<Euclidean, PC, Wrapper>( p, k, k2 );
      if( q == 2 ) r = cont::estimateLocalDimensionalityNearestNeighboursMLE<Euclidean, PC, Wrapper>( p, k, k2 );
      if( q == 3 ) r = cont::estimateLocalDimensionalityNearestNeighbours<Euclidean, PC>( p );
      if( q == 4 )
      {
        auto c = cont::estimateLocalDimensionalityPCA<Euclidean, PC, Wrapper>( p, k );
        Calm calm;
        return list( c );
      }
      if( q == 5 )
      {
        auto s = cont::correlationDimensionIntegral<Euclidean>( p );
        auto x = s.x.size() > 1 ? cont::correlationDimension( s ) : 0;
        Calm calm;
        return list( s.x ) + "/" + list( s.y ) + "/" + show( x );
      }
      Calm calm;
      return list( r );
    } );
  }
};

struct Smoothing : OnCloud
{
  std::vector<double> f;
  unsigned steps;
  Smoothing()
  {
    for( unsigned i = 0; i < n; i++ ) f.push_back( coordinate() );
    steps = 1 + unsigned( sim::choose( 3 ) );
  }
  std::string run( unsigned variant ) const
  {
    std::vector<double> r;
    if( variant & 1 ) cont::meanShiftSmoothing< geo::BruteForce<PC, Euclidean> >( p, f.begin(), f.end(), std::back_inserter( r ), k, steps );
    else cont::meanShiftSmoothing< geo::BruteForce<PC, Manhattan> >( p, f.begin(), f.end(), std::back_inserter( r ), k, steps );
    Calm calm;
    return list( r );
  }
};

struct Curvatures : OnCloud
{
  Curvatures() : OnCloud( 6 )
  {
    // Points in general position.
    p = PC( n, 2 + sim::choose( 2 ) );
    for( unsigned i = 0; i < n; i++ )
    {
      std::vector<double> x;
      for( unsigned j = 0; j < p.dimension(); j++ ) x.push_back( coordinate() + 0.013 * ( i + 1 ) * ( j + 1 ) * ( i + j * j + 1 ) );
      p.set( i, x.begin(), x.end() );
    }
    k = unsigned( p.dimension() ) + 2;
  }
  std::string run( unsigned ) const
  {
    geo::TangentSpace t;
    auto r = t( p, k );
    Calm calm;
    return list( r );
  }
};

struct Components : OnCloud
{
  std::vector< std::vector<double> > v;
  Components()
  {
    for( unsigned i = 0; i < n; i++ ) v.push_back( p[i] );
  }
  std::string run( unsigned ) const
  {
    aleph::math::PrincipalComponentAnalysis pca;
    auto r = pca( v );
    Calm calm;
    std::string s = list( r.singularValues );
    for( auto&& c : r.components ) s += "/" + list( c );
    return s;
  }
};

struct Tree : OnCloud
{
  std::vector<double> x;
  struct Metric { double operator()( double a, double b ) const { return std::abs( a - b ); } };
  Tree()
  {
    for( unsigned i = 0; i < n; i++ ) x.push_back( p[i][0] );
    std::cerr.rdbuf( nullptr );
  }
  std::string run( unsigned ) const
  {
    geo::CoverTree<double, Metric> t;
    t.insert( x.begin(), x.end() );
    Calm calm;
    auto v = t.points();
    std::sort( v.begin(), v.end() );
    return list( v ) + "/" + std::to_string( t.level() ) + ( t.isValid() ? " valid" : " invalid" );
  }
};

// -- complexes ------------------------------------------------------------

using Simplex = topo::Simplex<double, unsigned>;
using Complex = topo::SimplicialComplex<Simplex>;

struct OnComplex
{
  std::set<Vertices> s;
  std::vector<Cell> c;
  Complex K;
  unsigned n = 0;

  explicit OnComplex( unsigned dimension = 3, bool contiguous = false )
  {
    s = randomSet( 7, dimension, 8, labels( contiguous ) );
    c = filtration( s );
    for( auto&& x : c ) x.w += 4;
    K = build<Complex>( c );
    for( auto&& x : s ) n += x.size() == 1;
    sim::story( "complex %s", ops::text( c ).c_str() );
  }
  std::string input() const { return ops::text( cells( K ) ); }
};

struct ShortestPaths : OnComplex
{
  std::string run( unsigned variant ) const
  {
    auto M = topo::floydWarshall( K, double( variant & 1 ) );
    Calm calm;
    std::string r;
    for( unsigned i = 0; i < n; i++ )
      for( unsigned j = 0; j < n; j++ ) r += show( M( i, j ) ) + " ";
    return r;
  }
};

struct Curvature : OnComplex
{
  std::string run( unsigned variant ) const
  {
    return ask( variant, 6, [this]( unsigned q ) -> std::string
    {
      std::vector<double> r;
      if( q == 0 ) topo::curvature( K, std::back_inserter( r ) );
      if( q == 1 ) topo::curvature( K, std::back_inserter( r ), 2 );
      if( q == 2 ) topo::weightedCurvature( K, std::back_inserter( r ) );
      if( q == 3 && K.dimension() >= 2 ) topo::angleDefectCurvature( K, std::back_inserter( r ) );
      if( q == 4 ) topo::filtrations::degrees( K, std::back_inserter( r ) );
      if( q == 5 )
      {
        auto x = topo::filtrations::n_degree( K, K[0] );
        return std::to_string( x );
      }
      Calm calm;
      return list( r );
    } );
  }
};

struct Spectral : OnComplex
{
  double t;
  Spectral() : OnComplex( 2 ) { t = 0.25 * double( 1 + sim::choose( 8 ) ); }
  std::string run( unsigned variant ) const
  {
    return ask( variant, 4, [this]( unsigned q ) -> std::string
    {
      if( q == 0 )
      {
        geo::HeatKernel h( K );
        std::vector<double> r;
        auto T = decltype( h( 0, 0, 1.0 ) )( t );
        for( unsigned i = 0; i < n; i++ )
        {
          r.push_back( h( i, T ) );
          for( unsigned j = 0; j < n; j++ ) r.push_back( h( i, j, T ) );
        }
        r.push_back( h.trace( T ) );
        r.push_back( h.determinant( T ) );
        Calm calm;
        return list( r );
      }
      if( q == 1 )
      {
        auto L = geo::weightedLaplacianMatrix( K );
        Calm calm;
        std::string r;
        for( unsigned i = 0; i < unsigned( L.rows() ); i++ )
          for( unsigned j = 0; j < unsigned( L.cols() ); j++ ) r += show( L( i, j ) ) + " ";
        return r;
      }
      if( q == 2 )
      {
        auto A = geo::weightedAdjacencyMatrix( K );
        Calm calm;
        std::string r;
        for( unsigned i = 0; i < unsigned( A.rows() ); i++ )
          for( unsigned j = 0; j < unsigned( A.cols() ); j++ ) r += show( A( i, j ) ) + " ";
        return r;
      }
      if( n < 2 ) return "";
      auto v = topo::bisect( K );
      Calm calm;
      std::string r;
      for( auto&& x : v ) r += ops::text( cells( x ) ) + "/";
      return r;
    } );
  }
};

struct Orders : OnComplex
{
  std::vector<double> f;
  Orders() : OnComplex( 3, true )
  {
    for( unsigned i = 0; i < 8; i++ ) f.push_back( double( sim::choose( 5 ) ) );
  }
  std::string run( unsigned variant ) const
  {
    return ask( variant, 4, [this]( unsigned q ) -> std::string
    {
      Complex L( K );
      if( q == 0 )
      {
        topo::filtrations::LowerStar<Simplex> o( f.begin(), f.end() );
        L.sort( std::ref( o ) );
      }
      if( q == 1 )
      {
        topo::filtrations::UpperStar<Simplex> o( f.begin(), f.end() );
        L.sort( std::ref( o ) );
      }
      if( q == 2 ) L.sort( topo::filtrations::Data<Simplex>() );
      if( q == 3 ) L.sort( topo::filtrations::Data< Simplex, std::greater<double> >() );
      Calm calm;
      return ops::text( cells( L ) );
    } );
  }
};

struct Intersection : OnComplex
{
  Complex K0;
  std::vector<Complex> X;
  Intersection() : OnComplex( 2 )
  {
    for( std::size_t d = 0; d <= K.dimension(); d++ ) X.push_back( topo::Skeleton()( d, K ) );
  }
  std::string run( unsigned variant ) const
  {
    return ask( variant, 3, [this]( unsigned q ) -> std::string
    {
      std::string r;
      if( q == 0 )
      {
        auto d = aleph::calculateIntersectionHomology( K, X, aleph::Perversity( { -1, 0 } ) );
        Calm calm;
        for( auto&& x : d )
          for( auto&& y : x ) r += std::to_string( x.dimension() ) + ":" + show( y.x() ) + "," + show( y.y() ) + ";";
        return r;
      }
      if( q == 1 )
      {
        auto x = aleph::partition( K, []( const Simplex& s ) { return s.dimension() != 1; } );
        Calm calm;
        return ops::text( cells( x.first ) ) + std::to_string( x.second );
      }
      auto d = aleph::calculatePersistenceDiagrams( K );
      auto x = aleph::eulerCharacteristic( K ), y = aleph::eulerCharacteristic( d.begin(), d.end() );
      return std::to_string( x ) + " " + std::to_string( y );
    } );
  }
};

// -- diagrams -------------------------------------------------------------

struct Kernels
{
  using D = aleph::PersistenceDiagram<double>;
  D a, b;
  static D draw()
  {
    D d;
    for( unsigned i = unsigned( sim::choose( 6 ) ); i > 0; i-- )
    {
      double x = coordinate();
      d.add( x, x + 0.5 * double( sim::choose( 6 ) ) );
    }
    return d;
  }
  Kernels() : a( draw() ), b( draw() ) {}
  std::string input() const
  {
    std::string s;
    for( auto&& p : a ) s += show( p.x() ) + "," + show( p.y() ) + ";";
    s += "/";
    for( auto&& p : b ) s += show( p.x() ) + "," + show( p.y() ) + ";";
    return s;
  }
  std::string run( unsigned variant ) const
  {
    return ask( variant, 4, [this]( unsigned q ) -> std::string
    {
      double x = 0;
      if( q == 0 ) x = aleph::multiScaleKernel( a, b, 0.5 );
      if( q == 1 ) x = aleph::multiScaleKernel( b, a, 2.0 );
      if( q == 2 ) x = aleph::gaussianKernel( a, b, 1.0, 0.5, 2.0, 1.0 );
      if( q == 3 ) x = aleph::multiScaleFeatureMap( a, 1.0 );
      Calm calm;
      return show( x );
    } );
  }
};

// -- values and text ------------------------------------------------------

struct Values
{
  std::vector<double> v, w;
  std::unordered_set<unsigned> a, b;
  Values()
  {
    unsigned n = 2 + unsigned( sim::choose( 8 ) );
    for( unsigned i = 0; i < n; i++ )
    {
      v.push_back( coordinate() * ( sim::flip( 1, 6 ) ? 1e9 : 1 ) );
      w.push_back( coordinate() );
      if( sim::flip( 1, 2 ) ) a.insert( i );
      if( sim::flip( 1, 2 ) ) b.insert( i );
    }
  }
  std::string input() const { return list( v ) + "/" + list( w ); }
  std::string run( unsigned variant ) const
  {
    return ask( variant, 12, [this]( unsigned q ) -> std::string
    {
      double x = 0;
      std::vector<double> r;
      switch( q )
      {
      case 0: x = aleph::math::median( v.begin(), v.end() ); break;
      case 1: x = aleph::math::accumulate_kahan( v.begin(), v.end(), 0.0 ); break;
      case 2: x = aleph::math::accumulate_kahan_sorted( v.begin(), v.end(), 0.0 ); break;
      case 3: x = aleph::math::sampleMean( w.begin(), w.end() ); break;
      case 4: x = aleph::math::sampleStandardDeviation( w.begin(), w.end() ); break;
      case 5: x = aleph::math::sampleCovariance( v.begin(), v.end(), w.begin(), w.end() ); break;
      case 6:
      {
        using namespace aleph::utilities;
        r = 2.0 * v + w - v;
        Calm calm;
        return list( r );
      }
      case 7:
      {
        std::unordered_set<unsigned> c;
        aleph::utilities::set_intersection( a, b, c );
        Calm calm;
        return list( std::set<unsigned>( c.begin(), c.end() ) );
      }
      case 8:
      {
        std::vector<double> u( w );
        unsigned count = 0;
        std::size_t take = std::min( std::size_t( 3 ), u.size() );
        r.reserve( 600 );
        aleph::math::for_each_combination( u.begin(), u.begin() + std::ptrdiff_t( take ), u.end(),
          [&]( std::vector<double>::iterator f, std::vector<double>::iterator l )
          {
            count++;
            double sum = 0;
            for( ; f != l; ++f ) sum = 2 * sum + *f;
            r.push_back( sum );
            return false;
          } );
        Calm calm;
        return std::to_string( count ) + ": " + list( r ) + "/" + list( u );
      }
      case 9:
        try
        {
          aleph::utilities::ensureRange( w[0], -2.0, 2.0 );
          aleph::utilities::ensureLarger( w[1], 0.0 );
          return "within";
        }
        catch( const std::out_of_range& ) { return "beyond"; }
      case 10: x = aleph::math::sampleKurtosis( w.begin(), w.end() ); break;
      default:
      {
        aleph::math::KernelDensityEstimator e( 0.5, 1 );
        x = e( v.begin(), v.end(), w[0], aleph::math::kernels::Gaussian( 2.0 ) );
      }
      }
      Calm calm;
      return show( x );
    } );
  }
};

struct Text
{
  std::string t;
  unsigned number;
  Text()
  {
    static const char* const words[] = { " ", "  ", "\t", ",", ";", "a", "bc", "1", "-2.5", "1e3", "inf", "+", "0x", "\n" };
    for( unsigned i = unsigned( sim::choose( 12 ) ); i > 0; i-- ) t += words[ sim::choose( sizeof( words ) / sizeof( words[0] ) ) ];
    number = unsigned( sim::choose( 1000 ) );
    sim::story( "text \"%s\"", t.c_str() );
  }
  std::string input() const { return t; }
  static std::string show( const std::vector<std::string>& v )
  {
    std::string s;
    for( auto&& x : v ) s += "[" + x + "]";
    return s;
  }
  std::string run( unsigned variant ) const
  {
    namespace u = aleph::utilities;
    return ask( variant, 8, [this]( unsigned q ) -> std::string
    {
      switch( q )
      {
      case 0: { auto x = u::trim( t ); Calm calm; return "[" + x + "]"; }
      case 1: { auto x = u::ltrim( t ); Calm calm; return "[" + x + "]"; }
      case 2: { auto x = u::rtrim( t ); Calm calm; return "[" + x + "]"; }
      case 3: { auto x = u::split( t, std::string( "[[:space:],;]+" ) ); Calm calm; return show( x ); }
      // Streams keep exceptions to themselves.
      case 4: { Calm calm; return show( u::splitByWhitespace( t ) ); }
      case 5: { Calm calm; return std::to_string( u::countTokens( t ) ); }
      case 6:
      {
        Calm calm;
        bool good = true;
        auto x = u::convert<double>( t, good );
        return good ? ::show( x ) : "no number";
      }
      default: { Calm calm; return u::format( number, 999u ) + u::format( number, 99999u, ' ' ); }
      }
    } );
  }
};

Add< Shared<Descriptors> >   a0( "", "data descriptors", 3 );
Add< Shared<Dimensions> >    a1( "", "dimension estimates", 3 );
Add< Shared<Smoothing> >     a2( "", "mean shift", 2 );
Add< Shared<Curvatures> >    a3( "", "tangent spaces", 2 );
Add< Shared<Components> >    a4( "", "principal components", 1 );
Add< Shared<Tree> >          a5( "", "cover tree", 2 );
Add< Shared<ShortestPaths> > a6( "", "shortest paths", 2 );
Add< Shared<Curvature> >     a7( "", "curvature", 3 );
Add< Shared<Spectral> >      a8( "", "heat kernel and bisection", 2 );
Add< Shared<Orders> >        a9( "", "filtration orders", 3 );
Add< Shared<Intersection> >  b0( "", "intersection homology", 3 );
Add< Shared<Kernels> >       b1( "", "kernels", 1 );
Add< Shared<Values> >        b2( "", "statistics", 3 );
Add< Shared<Text> >          b3( "", "text utilities", 2 );

} // namespace
