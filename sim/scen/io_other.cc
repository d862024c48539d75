// HDF5, point clouds, diagrams and boundary matrices.

#include "io_formats.hh"

#include <aleph/containers/PointCloud.hh>

#include <aleph/persistenceDiagrams/PersistenceDiagram.hh>

#include <aleph/persistenceDiagrams/io/JSON.hh>
#include <aleph/persistenceDiagrams/io/Raw.hh>

#include <aleph/topology/BoundaryMatrix.hh>
#include <aleph/topology/Simplex.hh>
#include <aleph/topology/SimplicialComplex.hh>

#include <aleph/topology/representations/Set.hh>
#include <aleph/topology/representations/Vector.hh>

#include <aleph/topology/io/HDF5.hh>

#include <cmath>

namespace formats
{

namespace
{

using Simplex = aleph::topology::Simplex<double, unsigned long>;
using Complex = aleph::topology::SimplicialComplex<Simplex>;

Complex marker()
{
  Complex K;
  K.push_back( Simplex( 91ul, 3.5 ) );
  K.push_back( Simplex( 92ul, 4.5 ) );
  K.push_back( Simplex( { 91ul, 92ul }, 7.25 ) );
  return K;
}

// -- HDF5 -------------------------------------------------------------------

struct HDF5 : Format
{
  const char* name() const override { return "hdf5"; }
  bool damageable() const override { return false; }

  // 0: functor  1: names
  Settings settings() const override { return { unsigned( sim::choose( 2 ) ), unsigned( sim::choose( 3 ) ) }; }

  struct L : Loader
  {
    aleph::topology::io::HDF5SimpleDataSpaceReader reader;
    Complex K = marker();
    unsigned functor;
    void load( const std::string& p ) override
    {
      if( functor == 0 ) reader( p, K );
      else               reader( p, K, [] ( double a, double b ) { return std::min( a, b ); } );
    }
    std::string target() const override { return canonical( K ); }
  };

  std::unique_ptr<Loader> make( const Settings& s ) const override
  {
    auto* l = new L;
    l->functor = s[0];
    if( s[1] == 1 ) l->reader.setDataSetName( "values" );
    if( s[1] == 2 ) { l->reader.setGroupName( "/group" ); l->reader.setDataSetName( "values" ); }
    return std::unique_ptr<Loader>( l );
  }

  Document generate( const Settings& s, const std::string& stem ) const override
  {
    Document d;
    std::size_t W = 1 + sim::choose( 4 ), H = 1 + sim::choose( 4 );
    if( sim::flip( 1, 12 ) ) { W += 10; H += sim::choose( 30 ); }
    bool single = sim::flip( 1, 3 );
    bool flat = sim::flip( 1, 16 );
    std::vector<double> v( W * H );
    for( auto&& x : v ) x = weight();
    auto path = stem + ".h5";
    {
      H5::Exception::dontPrint();
      H5::H5File file( path, H5F_ACC_TRUNC );
      hsize_t dims[] = { W, H };
      hsize_t size[] = { W * H };
      H5::DataSpace space = flat ? H5::DataSpace( 1, size ) : H5::DataSpace( 2, dims );
      H5::DSetCreatPropList list;
      H5Pset_obj_track_times( list.getId(), false );
      auto type = single ? H5::PredType::NATIVE_FLOAT : H5::PredType::NATIVE_DOUBLE;
      H5::DataSet set;
      if( s[1] == 2 )
      {
        H5::Group group = file.createGroup( "/group" );
        set = group.createDataSet( "values", type, space, list );
      }
      else
        set = file.createDataSet( s[1] == 0 ? "YField" : "values", type, space, list );
      set.write( v.data(), H5::PredType::NATIVE_DOUBLE );
    }
    d.files.push_back( { path, sim::disk::get( path ) } );
    d.completeAt = d.files[0].content.size();
    if( flat ) return d;
    auto f = [&] ( double a, double b ) { return s[0] == 0 ? std::max( a, b ) : std::min( a, b ); };
    auto at = [&] ( std::size_t x, std::size_t y ) -> unsigned long { return y * W + x; };
    Cells K;
    for( std::size_t y = 0; y < H; y++ )
      for( std::size_t x = 0; x < W; x++ )
      {
        auto edge = [&] ( unsigned long a, unsigned long b ) { K.add( { a, b }, f( v[a], v[b] ) ); };
        K.add( { at( x, y ) }, v[ at( x, y ) ] );
        if( x + 1 < W ) edge( at( x, y ), at( x + 1, y ) );
        if( y > 0 )     edge( at( x, y ), at( x, y - 1 ) );
        if( x + 1 < W && y > 0 )
        {
          auto a = at( x, y ), b = at( x, y - 1 ), c = at( x + 1, y ), e = at( x + 1, y - 1 );
          edge( a, e );
          K.add( { a, e, c }, f( v[a], f( v[e], v[c] ) ) );
          K.add( { a, b, e }, f( v[a], f( v[b], v[e] ) ) );
        }
      }
    d.truth = K.str();
    return d;
  }

  Outcome model( const Document& d, const Settings& ) const override
  {
    if( d.files[0].content.size() < d.completeAt || d.truth.empty() ) return Outcome::Throw();
    return Outcome::Value( d.truth );
  }
};

// -- point clouds -------------------------------------------------------------

struct Cloud : Format
{
  const char* name() const override { return "point-cloud"; }

  using PointCloud = aleph::containers::PointCloud<double>;

  static std::string render( const std::vector< std::vector<double> >& p )
  {
    std::string s = std::to_string( p.size() ) + "x" + std::to_string( p.empty() ? 0 : p[0].size() ) + ":";
    for( auto&& q : p )
    {
      for( double x : q ) s += number( x ) + " ";
      s += ";";
    }
    return s;
  }

  struct L : Loader
  {
    PointCloud cloud;
    void load( const std::string& p ) override { cloud = aleph::containers::load<double>( p ); }
    std::string target() const override
    {
      std::vector< std::vector<double> > p;
      for( std::size_t i = 0; i < cloud.size(); i++ ) p.push_back( cloud[i] );
      return render( p );
    }
  };

  std::unique_ptr<Loader> make( const Settings& ) const override { return std::unique_ptr<Loader>( new L ); }

  Document generate( const Settings&, const std::string& stem ) const override
  {
    Document d;
    std::string t, eol = sim::flip( 1, 8 ) ? "\r\n" : "\n";
    std::string sep = sim::pick<const char*>( { " ", "\t", ",", ";", ":", ", ", "  " } );
    auto n = 1 + amount( 8, 200 );
    auto m = 1 + sim::choose( 4 );
    for( std::size_t i = 0; i < n; i++ )
    {
      if( sim::flip( 1, 8 ) ) t += sim::pick<const char*>( { "\n", "# 1 2\n", "  \n", "  # x\n" } );
      for( std::uint64_t j = 0; j < m; j++ ) t += ( j ? sep : "" ) + text( weight() );
      t += eol;
    }
    if( sim::flip( 1, 4 ) ) t.erase( t.find_last_not_of( "\r\n" ) + 1 );
    d.files.push_back( { stem + ".txt", t } );
    return d;
  }

  Outcome model( const Document& d, const Settings& ) const override
  {
    std::vector< std::vector<double> > p;
    for( auto&& raw : lines( d.files[0].content ) )
    {
      auto l = strip( raw );
      if( l.empty() || l[0] == '#' ) continue;
      std::vector<double> q;
      for( auto&& w : words( l, " \t\r,;:" ) )
      {
        if( !isNumber( w ) ) return Outcome::Any();
        q.push_back( std::stod( w ) );
      }
      p.push_back( q );
    }
    for( auto&& q : p ) if( q.size() != p[0].size() ) return Outcome::Throw();
    return Outcome::Value( render( p ) );
  }
};

// -- diagrams -------------------------------------------------------------------

using Diagram = aleph::PersistenceDiagram<double>;

std::string render( const Diagram& D )
{
  std::string s = "D" + std::to_string( D.dimension() ) + "<";
  for( auto&& p : D ) s += "(" + number( p.x() ) + "," + number( p.y() ) + ")";
  return s + ">";
}

Diagram markerDiagram()
{
  Diagram D;
  D.add( 1, 7 );
  D.setDimension( 5 );
  return D;
}

std::string endpoint( double& y, double x )
{
  y = x + std::abs( weight() );
  if( !sim::flip( 1, 5 ) ) return text( y );
  y = std::numeric_limits<double>::infinity();
  return sim::pick<const char*>( { "inf", "Inf", "infinity", "+inf" } );
}

struct Raw : Format
{
  const char* name() const override { return "diagram"; }

  struct L : Loader
  {
    Diagram D = markerDiagram();
    void load( const std::string& p ) override { D = aleph::io::load<double>( p ); }
    std::string target() const override { return render( D ); }
  };

  std::unique_ptr<Loader> make( const Settings& ) const override { return std::unique_ptr<Loader>( new L ); }

  Document generate( const Settings&, const std::string& stem ) const override
  {
    Document d;
    std::string t, eol = sim::flip( 1, 8 ) ? "\r\n" : "\n";
    bool crlf = eol.size() == 2;
    auto n = amount( 8, 400 );
    for( std::size_t i = 0; i < n; i++ )
    {
      if( sim::flip( 1, 8 ) ) t += sim::pick<const char*>( { "\n", "# 1 2\n" } );
      double x = weight(), y;
      auto e = endpoint( y, x );
      t += ( sim::flip( 1, 8 ) ? " " : "" ) + text( x ) + sim::pick<const char*>( { "\t", " ", "  " } ) + e;
      if( sim::flip( 1, 10 ) ) t += " 17";
      t += eol;
    }
    (void) crlf;
    if( sim::flip( 1, 4 ) && !t.empty() ) t.erase( t.find_last_not_of( "\r\n" ) + 1 );
    d.files.push_back( { stem + ".txt", t } );
    return d;
  }

  Outcome model( const Document& d, const Settings& ) const override
  {
    Diagram D;
    for( auto&& l : lines( d.files[0].content ) )
    {
      if( l.empty() || l[0] == '#' ) continue;
      auto w = words( l );
      if( w.size() < 2 ) return Outcome::Throw();
      if( !isNumber( w[0] ) ) return Outcome::Any();
      double y;
      std::string k = w[1];
      for( auto&& c : k ) c = char( std::tolower( c ) );
      if( k == "inf" || k == "infinity" || k == "+inf" ) y = std::numeric_limits<double>::infinity();
      else if( isNumber( w[1] ) ) y = std::stod( w[1] );
      else return Outcome::Any();
      D.add( std::stod( w[0] ), y );
    }
    return Outcome::Value( render( D ) );
  }
};

struct JSON : Format
{
  const char* name() const override { return "json"; }

  struct L : Loader
  {
    std::vector<Diagram> Ds = { markerDiagram() };
    void load( const std::string& p ) override { Ds = aleph::io::readJSON<double>( p ); }
    std::string target() const override
    {
      std::string s;
      for( auto&& D : Ds ) s += render( D );
      return s;
    }
  };

  std::unique_ptr<Loader> make( const Settings& ) const override { return std::unique_ptr<Loader>( new L ); }

  Document generate( const Settings&, const std::string& stem ) const override
  {
    Document d;
    std::string ws = sim::pick<const char*>( { "", " ", "\n", "\n  " } );
    std::string t = "{" + ws + ( sim::flip( 1, 3 ) ? "\"name\": \"diagrams [1, {\"," + ws : "" ) + "\"diagrams\":" + ws + "[";
    auto n = amount( 4, 20 );
    for( std::size_t i = 0; i < n; i++ )
    {
      Diagram D;
      D.setDimension( sim::choose( 3 ) );
      std::string points;
      unsigned betti = 0;
      auto m = amount( 6, 60 );
      for( std::size_t j = 0; j < m; j++ )
      {
        double x = weight(), y;
        auto e = endpoint( y, x );
        D.add( x, y );
        if( std::isinf( y ) ) betti++;
        points += ( j ? "," + ws : "" ) + "[\"" + text( x ) + "\",\"" + e + "\"]";
      }
      t += ( i ? "," + ws : "" ) + "{\"betti\":" + std::to_string( betti ) + "," + ws + "\"dimension\": " + std::to_string( D.dimension() )
           + ",\"size\":" + std::to_string( m ) + "," + ws + "\"diagram\":[" + points + "]}";
      d.truth += render( D );
    }
    t += "]" + ws + "}";
    d.completeAt = t.size();
    if( sim::flip( 1, 2 ) ) t += "\n";
    d.files.push_back( { stem + ".json", t } );
    return d;
  }

  Outcome model( const Document& d, const Settings& ) const override
  {
    if( d.files[0].content.size() < d.completeAt ) return Outcome::Throw();
    return Outcome::Value( d.truth );
  }
};

// -- boundary matrices ------------------------------------------------------------

template <class Representation> struct Boundary : Format
{
  const char* name_;
  Boundary( const char* n ) : name_( n ) {}

  const char* name() const override { return name_; }
  unsigned frequency() const override { return 1; }

  using Matrix = aleph::topology::BoundaryMatrix<Representation>;
  using Index  = typename Representation::Index;

  static std::string render( const std::vector< std::vector<Index> >& columns )
  {
    std::string s = std::to_string( columns.size() ) + ":";
    for( auto&& c : columns )
    {
      auto k = c;
      std::sort( k.begin(), k.end() );
      s += "(";
      for( auto&& i : k ) s += std::to_string( i ) + " ";
      s += ")";
    }
    return s;
  }

  struct L : Loader
  {
    Matrix M;
    void load( const std::string& p ) override { M = Matrix::load( p ); }
    std::string target() const override
    {
      std::vector< std::vector<Index> > columns;
      for( Index j = 0; j < M.getNumColumns(); j++ ) columns.push_back( M.getColumn( j ) );
      return render( columns );
    }
  };

  std::unique_ptr<Loader> make( const Settings& ) const override { return std::unique_ptr<Loader>( new L ); }

  Document generate( const Settings&, const std::string& stem ) const override
  {
    Document d;
    std::string t;
    auto n = 1 + amount( 9, 150 );
    for( std::size_t j = 0; j < n; j++ )
    {
      if( sim::flip( 1, 8 ) ) t += sim::pick<const char*>( { "\n", "# 1 2\n", "  \n", "  # x\n" } );
      std::set<unsigned long> c;
      if( j >= 2 )
      {
        auto k = sim::choose( 4 );
        if( k >= 1 ) for( std::uint64_t i = 0; i <= k; i++ ) c.insert( sim::choose( j ) );
        if( c.size() == 1 ) c.clear();
      }
      std::vector<unsigned long> v( c.begin(), c.end() );
      if( sim::flip( 1, 4 ) ) std::reverse( v.begin(), v.end() );
      t += std::to_string( v.empty() ? 0 : v.size() - 1 );
      for( auto i : v ) t += sim::pick<const char*>( { " ", "\t", "  " } ) + std::to_string( i );
      t += "\n";
    }
    if( sim::flip( 1, 4 ) ) t.erase( t.size() - 1 );
    d.files.push_back( { stem + ".txt", t } );
    return d;
  }

  Outcome model( const Document& d, const Settings& ) const override
  {
    std::vector< std::vector<Index> > columns;
    for( auto&& l : lines( d.files[0].content ) )
    {
      auto w = words( l );
      if( w.empty() || w[0][0] == '#' ) continue;
      std::vector<Index> c;
      std::set<unsigned long> distinct;
      for( std::size_t i = 1; i < w.size(); i++ )
      {
        c.push_back( Index( std::stoul( w[i] ) ) );
        distinct.insert( c.back() );
      }
      if( distinct.size() != c.size() ) return Outcome::Any();   // torn index
      if( ( c.empty() ? 0 : c.size() - 1 ) != std::stoul( w[0] ) ) return Outcome::Throw();
      columns.push_back( c );
    }
    return Outcome::Value( render( columns ) );
  }
};

HDF5 hdf5;       Add a1( &hdf5 );
Cloud cloud;     Add a2( &cloud );
Raw raw;         Add a3( &raw );
JSON json;       Add a4( &json );

Boundary< aleph::topology::representations::Vector<unsigned> > b1( "boundary-matrix" );     Add a6( &b1 );
Boundary< aleph::topology::representations::Set<unsigned> >    b2( "boundary-matrix-set" ); Add a7( &b2 );

} // namespace

} // namespace formats
