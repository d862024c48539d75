// Matrices, adjacency matrices, sparse adjacency matrices, spectra and functions.

#include "io_formats.hh"

#include <aleph/topology/BoundaryMatrix.hh>
#include <aleph/topology/Simplex.hh>
#include <aleph/topology/SimplicialComplex.hh>

#include <aleph/topology/representations/Vector.hh>

#include <aleph/topology/io/AdjacencyMatrix.hh>
#include <aleph/topology/io/BipartiteAdjacencyMatrix.hh>
#include <aleph/topology/io/FlexSpectrum.hh>
#include <aleph/topology/io/Function.hh>
#include <aleph/topology/io/Matrix.hh>
#include <aleph/topology/io/SparseAdjacencyMatrix.hh>

#include <cmath>

namespace formats
{

namespace
{

using Simplex = aleph::topology::Simplex<double, unsigned long>;
using Complex = aleph::topology::SimplicialComplex<Simplex>;

// Vertices that are numbered by few bits.
using Narrow = aleph::topology::SimplicialComplex< aleph::topology::Simplex<double, unsigned char> >;

template <class K = Complex> K marker()
{
  using S = typename K::ValueType;
  using V = typename S::VertexType;
  K k;
  k.push_back( S( V( 91 ), 3.5 ) );
  k.push_back( S( V( 92 ), 4.5 ) );
  k.push_back( S( { V( 91 ), V( 92 ) }, 7.25 ) );
  return k;
}

// -- dense matrices -------------------------------------------------------

std::string matrixText( std::size_t rows, std::size_t columns, bool decorated )
{
  std::string t, eol = sim::flip( 1, 8 ) ? "\r\n" : "\n";
  for( std::size_t y = 0; y < rows; y++ )
  {
    if( decorated && sim::flip( 1, 6 ) ) t += sim::pick<const char*>( { "\n", "# 1 2 3\n", "   \n", "  # x\n" } );
    for( std::size_t x = 0; x < columns; x++ )
      t += ( x ? sim::pick<const char*>( { " ", "\t", "  " } ) : sim::flip( 1, 12 ) ? "  " : "" ) + text( weight() );
    if( sim::flip( 1, 12 ) ) t += " ";
    t += eol;
  }
  if( sim::flip( 1, 4 ) ) t.erase( t.find_last_not_of( "\r\n" ) + 1 );
  return t;
}

// Parses the rows that are left; 0 = fine, 1 = rows differ, 2 = something is not a number.
int parseMatrix( const std::string& t, std::vector< std::vector<double> >& rows )
{
  for( auto&& raw : lines( t ) )
  {
    auto l = strip( raw );
    if( l.empty() || l[0] == '#' ) continue;
    std::vector<double> r;
    for( auto&& w : words( l ) )
    {
      if( !isNumber( w ) ) return 2;
      r.push_back( std::stod( w ) );
    }
    rows.push_back( r );
  }
  for( auto&& r : rows ) if( r.size() != rows[0].size() ) return 1;
  return 0;
}

struct Matrix : Format
{
  const char* name() const override { return "matrix"; }

  // 0: triangles?  1: functor, or an open file
  Settings settings() const override { return { unsigned( sim::choose( 3 ) ), unsigned( sim::choose( 3 ) ) }; }

  struct L : Loader
  {
    aleph::topology::io::MatrixReader reader;
    Complex K = marker();
    unsigned functor;
    void load( const std::string& p ) override
    {
      if( functor == 0 )      reader( p, K );
      else if( functor == 1 ) reader( p, K, [] ( double a, double b ) { return std::min( a, b ); } );
      else
      {
        std::ifstream in( p );
        if( !in ) throw std::runtime_error( "Unable to read input file" );
        reader( in, K );
      }
    }
    std::string target() const override { return canonical( K ); }
    std::string meta() const override { return "|" + std::to_string( reader.height() ) + "x" + std::to_string( reader.width() ); }
  };

  std::unique_ptr<Loader> make( const Settings& s ) const override
  {
    auto* l = new L;
    if( s[0] == 1 ) l->reader.addTriangles( false );
    if( s[0] == 2 ) l->reader.addTriangles( true );
    l->functor = s[1];
    return std::unique_ptr<Loader>( l );
  }

  Document generate( const Settings&, const std::string& stem ) const override
  {
    Document d;
    bool large = sim::flip( 1, 12 );
    auto h = 1 + sim::choose( large ? 14 : 4 ), w = 1 + sim::choose( large ? 14 : 4 );
    d.files.push_back( { stem + ".txt", matrixText( h, w, true ) } );
    return d;
  }

  Outcome model( const Document& d, const Settings& s ) const override
  {
    std::vector< std::vector<double> > m;
    int code = parseMatrix( d.files[0].content, m );
    if( code == 2 ) return Outcome::Any();
    if( code == 1 || m.empty() ) return Outcome::Throw();
    auto f = [&] ( double a, double b ) { return s[1] != 1 ? std::max( a, b ) : std::min( a, b ); };
    std::size_t H = m.size(), W = m[0].size();
    auto v = [&] ( std::size_t y, std::size_t x ) -> unsigned long { return y * W + x; };
    Cells K;
    for( std::size_t y = 0; y < H; y++ )
      for( std::size_t x = 0; x < W; x++ )
      {
        K.add( { v( y, x ) }, m[y][x] );
        if( x + 1 < W ) K.add( { v( y, x ), v( y, x + 1 ) }, f( m[y][x], m[y][x+1] ) );
        if( y + 1 < H ) K.add( { v( y, x ), v( y + 1, x ) }, f( m[y][x], m[y+1][x] ) );
        if( x + 1 < W && y + 1 < H )
        {
          K.add( { v( y, x ), v( y + 1, x + 1 ) }, f( m[y][x], m[y+1][x+1] ) );
          if( s[0] != 1 )
          {
            K.add( { v( y, x ), v( y, x + 1 ), v( y + 1, x + 1 ) }, f( f( m[y][x], m[y][x+1] ), m[y+1][x+1] ) );
            K.add( { v( y, x ), v( y + 1, x ), v( y + 1, x + 1 ) }, f( f( m[y][x], m[y+1][x] ), m[y+1][x+1] ) );
          }
        }
      }
    return Outcome::Value( K.str() + "|" + std::to_string( H ) + "x" + std::to_string( W ) );
  }
};

struct Adjacency : Format
{
  const char* name() const override { return "adjacency-matrix"; }

  // 0: ignore zero weights  1: vertex weights  2: functor, or an open file  3: ignore NaNs  4: narrow vertices
  Settings settings() const override
  {
    return { unsigned( sim::choose( 2 ) ), unsigned( sim::choose( 4 ) ), unsigned( sim::choose( 3 ) ), unsigned( sim::choose( 2 ) ), unsigned( sim::flip( 1, 4 ) ) };
  }

  using Reader = aleph::topology::io::AdjacencyMatrixReader;
  using Strategy = Reader::VertexWeightAssignmentStrategy;

  template <class Complex> struct L : Loader
  {
    Reader reader;
    Complex K = marker<Complex>();
    unsigned functor;
    void load( const std::string& p ) override
    {
      if( functor == 0 )      reader( p, K );
      else if( functor == 1 ) reader( p, K, [] ( double max, double, double x ) { return max - x; } );
      else
      {
        std::ifstream in( p );
        if( !in ) throw std::runtime_error( "Unable to read input file" );
        reader( in, K );
      }
    }
    std::string target() const override { return canonical( K ); }
    std::string meta() const override { return "|" + std::to_string( reader.dimension() ) + "|" + ordered(); }
    std::string ordered() const
    {
      double last = -1e300;
      for( auto&& s : K )
      {
        if( s.data() < last ) return "weights-unordered";
        last = s.data();
      }
      return "sorted";
    }
  };

  std::unique_ptr<Loader> make( const Settings& s ) const override
  {
    if( s[4] ) return this->create<Narrow>( s );
    return this->create<Complex>( s );
  }

  template <class K> std::unique_ptr<Loader> create( const Settings& s ) const
  {
    auto* l = new L<K>;
    if( s[0] ) l->reader.setIgnoreZeroWeights();
    if( s[1] ) l->reader.setVertexWeightAssignmentStrategy( s[1] == 1 ? Strategy::AssignGlobalMaximum : s[1] == 2 ? Strategy::AssignGlobalMinimum : Strategy::AssignZero );
    l->functor = s[2];
    if( s[3] ) l->reader.setIgnoreNaNs();
    return std::unique_ptr<Loader>( l );
  }

  Document generate( const Settings& s, const std::string& stem ) const override
  {
    Document d;
    auto n = 1 + sim::choose( sim::flip( 1, s[4] ? 3 : 12 ) ? 24 : 5 );
    d.files.push_back( { stem + ".txt", matrixText( n, n, true ) } );
    return d;
  }

  Outcome model( const Document& d, const Settings& s ) const override
  {
    std::vector< std::vector<double> > m;
    int code = parseMatrix( d.files[0].content, m );
    if( code == 2 ) return Outcome::Any();
    if( code == 1 || m.empty() || m.size() != m[0].size() ) return Outcome::Throw();
    double lo = m[0][0], hi = m[0][0];
    for( auto&& r : m ) for( double x : r ) { lo = std::min( lo, x ); hi = std::max( hi, x ); }
    auto f = [&] ( double x ) { return s[2] != 1 ? x : hi - x; };
    Cells K;
    for( std::size_t y = 0; y < m.size(); y++ )
    {
      K.add( { y }, s[1] == 1 ? f( hi ) : s[1] == 3 ? 0.0 : f( lo ) );
      for( std::size_t x = y + 1; x < m.size(); x++ )
        if( !( s[0] && m[y][x] == 0 ) ) K.add( { y, x }, f( m[y][x] ) );
    }
    return Outcome::Value( K.str() + "|" + std::to_string( m.size() ) + "|sorted" );
  }
};

struct Bipartite : Format
{
  const char* name() const override { return "bipartite-matrix"; }

  // 0: vertex weights  1: narrow vertices
  Settings settings() const override { return { unsigned( sim::choose( 3 ) ), unsigned( sim::flip( 1, 4 ) ) }; }

  template <class Complex> struct L : Loader
  {
    aleph::topology::io::BipartiteAdjacencyMatrixReader reader;
    Complex K = marker<Complex>();
    void load( const std::string& p ) override { reader( p, K ); }
    std::string target() const override { return canonical( K ); }
    std::string meta() const override
    {
      double last = -1e300;
      bool sorted = true;
      for( auto&& s : K ) { sorted = sorted && s.data() >= last; last = s.data(); }
      return "|" + std::to_string( reader.height() ) + "x" + std::to_string( reader.width() ) + ( sorted ? "|sorted" : "|unsorted" );
    }
  };

  std::unique_ptr<Loader> make( const Settings& s ) const override
  {
    if( s[1] ) return this->create<Narrow>( s );
    return this->create<Complex>( s );
  }

  template <class K> std::unique_ptr<Loader> create( const Settings& s ) const
  {
    auto* l = new L<K>;
    if( s[0] == 1 ) l->reader.setAssignMinimumVertexWeight();
    if( s[0] == 2 ) l->reader.setAssignMinimumAbsoluteVertexWeight();
    return std::unique_ptr<Loader>( l );
  }

  Document generate( const Settings& s, const std::string& stem ) const override
  {
    Document d;
    bool large = sim::flip( 1, s[1] ? 3 : 12 );
    auto h = 1 + sim::choose( large ? 24 : 4 ), w = 1 + sim::choose( large ? 24 : 4 );
    d.files.push_back( { stem + ".txt", matrixText( h, w, true ) } );
    return d;
  }

  Outcome model( const Document& d, const Settings& s ) const override
  {
    std::vector< std::vector<double> > m;
    int code = parseMatrix( d.files[0].content, m );
    if( code == 2 ) return Outcome::Any();
    if( code == 1 || m.empty() ) return Outcome::Throw();
    std::size_t H = m.size(), W = m[0].size();
    double lo = m[0][0];
    for( auto&& r : m ) for( double x : r ) lo = std::min( lo, x );
    std::vector<double> weight( H + W );
    std::vector<bool> set( H + W, false );
    Cells K;
    for( std::size_t y = 0; y < H; y++ )
      for( std::size_t x = 0; x < W; x++ )
      {
        K.add( { y, x + H }, m[y][x] );
        for( std::size_t v : { y, x + H } )
        {
          if( !set[v] || ( s[0] == 2 ? std::abs( m[y][x] ) < std::abs( weight[v] ) : m[y][x] < weight[v] ) ) weight[v] = m[y][x];
          set[v] = true;
        }
      }
    for( std::size_t v = 0; v < H + W; v++ ) K.add( { v }, s[0] ? weight[v] : lo );
    return Outcome::Value( K.str() + "|" + std::to_string( H ) + "x" + std::to_string( W ) + "|sorted" );
  }
};

// -- sparse adjacency matrices ----------------------------------------------

struct Sparse : Format
{
  const char* name() const override { return "sparse-adjacency"; }
  unsigned frequency() const override { return 3; }

  // 0: graph labels  1: node labels  2: node attributes (index + 1)  3: edge attributes (index + 1)
  Settings settings() const override
  {
    return { unsigned( !sim::flip( 1, 6 ) ), unsigned( sim::choose( 2 ) ), unsigned( sim::choose( 3 ) ), unsigned( sim::choose( 3 ) ) };
  }

  struct L : Loader
  {
    aleph::topology::io::SparseAdjacencyMatrixReader reader;
    std::vector<Complex> Ks = { marker(), marker() };
    void load( const std::string& p ) override { reader( p, Ks ); }
    std::string target() const override
    {
      std::string s;
      for( auto&& K : Ks ) s += canonical( K );
      return s;
    }
    std::string meta() const override
    {
      auto copy = reader;   // the queries are not const
      std::vector<std::string> g, n;
      copy.graphLabels( std::back_inserter( g ) );
      copy.nodeLabels( std::back_inserter( n ) );
      std::string m = "|graphs:";
      for( auto&& l : g ) m += l + ",";
      m += "|nodes:";
      for( auto&& l : n ) m += l + ",";
      return m;
    }
  };

  std::unique_ptr<Loader> make( const Settings& s ) const override
  {
    auto* l = new L;
    l->reader.setReadGraphLabels( s[0] );
    l->reader.setReadNodeLabels( s[1] );
    l->reader.setTrimLines();
    if( s[2] ) { l->reader.setReadNodeAttributes(); l->reader.setNodeAttributeIndex( s[2] - 1 ); }
    if( s[3] ) { l->reader.setReadEdgeAttributes(); l->reader.setEdgeAttributeIndex( s[3] - 1 ); }
    return std::unique_ptr<Loader>( l );
  }

  Document generate( const Settings& s, const std::string& stem ) const override
  {
    Document d;
    auto graphs = 1 + sim::choose( 4 );
    std::string a, indicator, graphLabels, nodeLabels, nodeAttributes, edgeAttributes;
    unsigned long first = 1;
    std::string sep = sim::pick<const char*>( { ", ", "," } );
    for( std::uint64_t g = 0; g < graphs; g++ )
    {
      unsigned long n = 2 + sim::choose( sim::flip( 1, 12 ) ? 40 : 5 );
      auto id = std::to_string( 1 + g * ( 1 + ( s[0] ? 0 : 3 ) ) );
      std::vector< std::pair<unsigned long, unsigned long> > es;
      for( unsigned long i = 1; i < n; i++ ) es.push_back( { sim::choose( i ), i } );   // no isolated nodes
      for( auto&& e : edges( n, sim::choose( 4 ) ) ) es.push_back( e );
      sim::shuffle( es );
      for( auto&& e : es )
      {
        a += std::to_string( e.first + first ) + sep + std::to_string( e.second + first ) + "\n";
        edgeAttributes += text( weight() ) + sep + text( weight() ) + "\n";
        if( sim::flip( 1, 2 ) )   // usually, both directions are stored
        {
          a += std::to_string( e.second + first ) + sep + std::to_string( e.first + first ) + "\n";
          edgeAttributes += text( weight() ) + sep + text( weight() ) + "\n";
        }
      }
      for( unsigned long i = 0; i < n; i++ )
      {
        indicator += id + "\n";
        nodeLabels += "n" + std::to_string( sim::choose( 9 ) ) + "\n";
        nodeAttributes += text( weight() ) + sep + text( weight() ) + "\n";
      }
      graphLabels += "g" + std::to_string( sim::choose( 9 ) ) + "\n";
      first += n;
    }
    d.files.push_back( { stem + "_A.txt", a } );
    d.files.push_back( { stem + "_graph_indicator.txt", indicator } );
    if( s[0] ) d.files.push_back( { stem + "_graph_labels.txt", graphLabels } );
    if( s[1] && sim::flip( 3, 4 ) ) d.files.push_back( { stem + "_node_labels.txt", nodeLabels } );
    if( s[2] ) d.files.push_back( { stem + "_node_attributes.txt", nodeAttributes } );
    if( s[3] ) d.files.push_back( { stem + "_edge_attributes.txt", edgeAttributes } );
    return d;
  }

  static bool ends( const std::string& s, const char* e )
  {
    std::string t = e;
    return s.size() >= t.size() && s.compare( s.size() - t.size(), t.size(), t ) == 0;
  }

  Outcome model( const Document& d, const Settings& s ) const override
  {
    std::map<std::string, std::vector<std::string> > f;
    for( auto&& file : d.files )
      for( auto&& kind : { "_A.txt", "_graph_indicator.txt", "_graph_labels.txt", "_node_labels.txt", "_node_attributes.txt", "_edge_attributes.txt" } )
        if( ends( file.path, kind ) ) f[ kind ] = lines( file.content );

    std::vector<unsigned long> graphOf;
    std::set<unsigned long> ids;
    for( auto&& l : f[ "_graph_indicator.txt" ] )
    {
      if( !isIndex( strip( l ) ) ) return Outcome::Any();
      graphOf.push_back( std::stoul( l ) );
      ids.insert( graphOf.back() );
    }
    std::map<unsigned long, std::size_t> indexOf;
    for( auto&& id : ids ) { auto k = indexOf.size(); indexOf[id] = k; }

    auto attribute = [&] ( const char* kind, std::size_t row, unsigned column, bool& bad, bool& any ) -> double
    {
      auto& rows = f[ kind ];
      if( row >= rows.size() ) { bad = true; return 0; }
      auto w = words( rows[row], ", \t\r" );
      if( column >= w.size() )
      {
        // "1," and "1, " differ in the number of fields only.
        if( rows[row].find( ',' ) != std::string::npos ) any = true;
        else bad = true;
        return 0;
      }
      if( !isNumber( w[column] ) ) { any = true; return 0; }
      return std::stod( w[column] );
    };

    std::vector<Cells> Ks( ids.size() );
    std::vector< std::pair<unsigned long, unsigned long> > es;
    std::set<unsigned long> vertices;
    bool bad = false, any = false;
    for( auto&& l : f[ "_A.txt" ] )
    {
      auto w = words( l, ", \t\r" );
      if( w.size() < 2 ) return Outcome::Throw();
      es.push_back( { std::stoul( w[0] ), std::stoul( w[1] ) } );
      vertices.insert( es.back().first );
      vertices.insert( es.back().second );
    }
    std::vector<std::string> labels( ids.size() );
    for( auto v : vertices )
    {
      if( v == 0 || v > graphOf.size() ) return Outcome::Throw();
      auto g = indexOf[ graphOf[ v - 1 ] ];
      if( s[0] )
      {
        if( g >= f[ "_graph_labels.txt" ].size() ) return Outcome::Throw();
        labels[g] = strip( f[ "_graph_labels.txt" ][g] );
      }
      Ks[g].add( { v }, s[2] ? attribute( "_node_attributes.txt", v - 1, s[2] - 1, bad, any ) : 0.0 );
    }
    for( std::size_t i = 0; i < es.size(); i++ )
    {
      if( graphOf[ es[i].first - 1 ] != graphOf[ es[i].second - 1 ] ) return Outcome::Throw();
      auto x = s[3] ? attribute( "_edge_attributes.txt", i, s[3] - 1, bad, any ) : 0.0;
      Ks[ indexOf[ graphOf[ es[i].first - 1 ] ] ].add( { es[i].first, es[i].second }, x );
    }
    if( any ) return Outcome::Any();
    if( bad ) return Outcome::Throw();
    std::string r;
    for( auto&& K : Ks ) r += K.str();
    r += "|graphs:";
    if( s[0] )
    {
      if( f[ "_graph_labels.txt" ].size() <= ids.size() )
      {
        labels.clear();
        for( auto&& l : f[ "_graph_labels.txt" ] ) labels.push_back( strip( l ) );
      }
      for( auto&& l : labels ) r += l + ",";
    }
    r += "|nodes:";
    if( s[1] ) for( auto&& l : f[ "_node_labels.txt" ] ) r += strip( l ) + ",";
    return Outcome::Value( r );
  }
};

// -- spectra ------------------------------------------------------------------

struct Spectrum : Format
{
  const char* name() const override { return "spectrum"; }

  Settings settings() const override { return { unsigned( sim::choose( 2 ) ) }; }   // normalise

  struct L : Loader
  {
    aleph::topology::io::FlexSpectrumReader reader;
    Complex K = marker();
    void load( const std::string& p ) override { reader( p, K ); }
    std::string target() const override { return canonical( K ); }
    std::string meta() const override
    {
      std::string m = "|values:";
      for( auto&& p : reader.getIndexToValueMap() ) m += std::to_string( p.first ) + "=" + number( p.second ) + ",";
      m += "|intensities:";
      for( auto&& p : reader.getIndexToIntensityMap() ) m += std::to_string( p.first ) + "=" + number( p.second ) + ",";
      return m + "|" + orderOf( K, true );
    }
  };

  std::unique_ptr<Loader> make( const Settings& s ) const override
  {
    auto* l = new L;
    if( s[0] ) l->reader.normalize( true );
    return std::unique_ptr<Loader>( l );
  }

  Document generate( const Settings&, const std::string& stem ) const override
  {
    Document d;
    std::string t, eol = sim::flip( 1, 8 ) ? "\r\n" : "\n";
    if( sim::flip( 1, 2 ) ) t += "m/z" + std::string( "\tintensity" ) + eol;
    auto n = 2 + amount( 8, 500 );
    double x = 1;
    for( std::size_t i = 0; i < n; i++ )
    {
      if( sim::flip( 1, 10 ) ) t += sim::pick<const char*>( { "\n", "# 1 2\n", "x 1 2\n" } );
      x += double( 1 + sim::choose( 16 ) ) / 8;
      t += text( x ) + sim::pick<const char*>( { "\t", " " } ) + text( 1 + weight( false ) ) + eol;
    }
    if( sim::flip( 1, 4 ) ) t.erase( t.find_last_not_of( "\r\n" ) + 1 );
    d.files.push_back( { stem + ".txt", t } );
    return d;
  }

  Outcome model( const Document& d, const Settings& s ) const override
  {
    std::vector<double> xs, ys;
    for( auto&& l : lines( d.files[0].content ) )
    {
      if( l.empty() || !std::isdigit( static_cast<unsigned char>( l[0] ) ) ) continue;
      auto w = words( l );
      if( w.size() < 2 || !isNumber( w[0] ) || !isNumber( w[1] ) ) return Outcome::Any();
      xs.push_back( std::stod( w[0] ) );
      ys.push_back( std::stod( w[1] ) );
    }
    double total = 0;
    for( double y : ys ) total += y;
    if( s[0] && ( ys.size() < 2 || total == 0 ) ) return Outcome::Any();
    if( s[0] ) for( double& y : ys ) y /= total;
    Cells K;
    std::string m = "|values:", i = "|intensities:";
    for( std::size_t k = 0; k < ys.size(); k++ )
    {
      K.add( { k }, ys[k] );
      if( k ) K.add( { k - 1, k }, std::min( ys[k-1], ys[k] ) );
      m += std::to_string( k ) + "=" + number( xs[k] ) + ",";
      i += std::to_string( k ) + "=" + number( ys[k] ) + ",";
    }
    return Outcome::Value( K.str() + m + i + "|ordered" );
  }
};

// -- functions ------------------------------------------------------------------

struct Functions : Format
{
  const char* name() const override { return "functions"; }

  Settings settings() const override { return { unsigned( sim::choose( 2 ) ) }; }   // functor

  struct L : Loader
  {
    std::vector<Complex> Ks = { marker() };
    unsigned functor;
    void load( const std::string& p ) override
    {
      if( functor == 0 ) Ks = aleph::topology::io::loadFunctions<Complex>( p );
      else               Ks = aleph::topology::io::loadFunctions<Complex>( p, [] ( double a, double b ) { return std::min( a, b ); } );
    }
    std::string target() const override
    {
      std::string s;
      for( auto&& K : Ks ) s += canonical( K );
      return s;
    }
  };

  std::unique_ptr<Loader> make( const Settings& s ) const override
  {
    auto* l = new L;
    l->functor = s[0];
    return std::unique_ptr<Loader>( l );
  }

  Document generate( const Settings&, const std::string& stem ) const override
  {
    Document d;
    std::string t;
    auto n = 1 + amount( 4, 30 );
    for( std::size_t i = 0; i < n; i++ )
    {
      auto m = 1 + amount( 6, 60 );
      for( std::size_t j = 0; j < m; j++ )
        t += ( j ? sim::pick<const char*>( { " ", "\t", "  " } ) : "" ) + text( weight() );
      t += "\n";
    }
    if( sim::flip( 1, 4 ) ) t.erase( t.size() - 1 );
    d.files.push_back( { stem + ".txt", t } );
    return d;
  }

  Outcome model( const Document& d, const Settings& s ) const override
  {
    std::string r;
    for( auto&& l : lines( d.files[0].content ) )
    {
      Cells K;
      double last = 0;
      unsigned long i = 0;
      for( auto&& w : words( l ) )
      {
        if( !isNumber( w ) ) return Outcome::Any();
        double x = std::stod( w );
        K.add( { i }, x );
        if( i ) K.add( { i - 1, i }, s[0] == 0 ? std::max( last, x ) : std::min( last, x ) );
        last = x;
        i++;
      }
      r += K.str();
    }
    return Outcome::Value( r );
  }
};

struct Function : Format
{
  const char* name() const override { return "function"; }

  using BoundaryMatrix = aleph::topology::BoundaryMatrix< aleph::topology::representations::Vector<unsigned> >;

  static std::string render( const std::vector< std::vector<unsigned> >& columns, const std::vector<double>& values )
  {
    std::string s;
    for( auto&& c : columns )
    {
      auto k = c;
      std::sort( k.begin(), k.end() );
      s += "(";
      for( auto&& i : k ) s += std::to_string( i ) + " ";
      s += ")";
    }
    s += "|";
    for( auto&& v : values ) s += number( v ) + " ";
    return s;
  }

  struct L : Loader
  {
    BoundaryMatrix M;
    std::vector<double> values = { 5, 6, 7 };
    L()
    {
      M.setNumColumns( 3 );
      std::vector<unsigned> column = { 0, 1 };
      M.setColumn( 2, column.begin(), column.end() );
    }
    void load( const std::string& p ) override { aleph::topology::io::loadFunction( p, M, values ); }
    std::string target() const override
    {
      std::vector< std::vector<unsigned> > columns;
      for( unsigned j = 0; j < M.getNumColumns(); j++ ) columns.push_back( M.getColumn( j ) );
      return render( columns, values );
    }
  };

  std::unique_ptr<Loader> make( const Settings& ) const override { return std::unique_ptr<Loader>( new L ); }

  Document generate( const Settings&, const std::string& stem ) const override
  {
    Document d;
    std::string t;
    auto n = 1 + amount( 8, 300 );
    for( std::size_t j = 0; j < n; j++ )
      t += text( weight() ) + sim::pick<const char*>( { "\n", " ", "\t", "\r\n", "\n\n" } );
    if( sim::flip( 1, 4 ) ) t.erase( t.find_last_not_of( " \t\r\n" ) + 1 );
    d.files.push_back( { stem + ".txt", t } );
    return d;
  }

  Outcome model( const Document& d, const Settings& ) const override
  {
    std::vector<double> v;
    for( auto&& w : words( d.files[0].content ) )
    {
      if( !isNumber( w ) ) return Outcome::Any();
      v.push_back( std::stod( w ) );
    }
    if( v.empty() ) return Outcome::Throw();
    auto n = v.size();
    // Vertices come before edges of the same value; ties follow the file.
    std::vector< std::pair<double, std::size_t> > order;
    for( std::size_t i = 0; i < n; i++ ) order.push_back( { v[i], i } );
    for( std::size_t i = 0; i + 1 < n; i++ ) order.push_back( { std::max( v[i], v[i+1] ), n + i } );
    std::sort( order.begin(), order.end() );
    std::vector<unsigned> position( n );
    std::vector< std::vector<unsigned> > columns;
    std::vector<double> values;
    for( std::size_t j = 0; j < order.size(); j++ )
    {
      auto i = order[j].second;
      if( i < n ) { position[i] = unsigned( j ); columns.push_back( {} ); }
      else columns.push_back( { position[ i - n ], position[ i - n + 1 ] } );
      values.push_back( order[j].first );
    }
    return Outcome::Value( render( columns, values ) );
  }
};

Matrix matrix;       Add a1( &matrix );
Adjacency adjacency; Add a2( &adjacency );
Bipartite bipartite; Add a3( &bipartite );
Sparse sparse;       Add a4( &sparse );
Spectrum spectrum;   Add a5( &spectrum );
Functions functions; Add a6( &functions );
Function function;   Add a7( &function );

} // namespace

} // namespace formats
