// Readers as operations: every call has a reader and a target of its own, the
// files are shared.

#include "ops.hh"
#include "io_formats.hh"

#include <exception>

namespace
{

using namespace ops;

// Third-party parsers that do not care about failing allocations (or threads)
// are kept apart.
enum Parser { Own, XML, Binary };

// Files of one run have different names, whatever reads them.
unsigned serial = 0;

template <Parser P> struct Reading : Op
{
  const formats::Format* f;
  formats::Settings s;
  formats::Document d;
  formats::Outcome o;
  bool shared;

  Reading()
  {
    std::vector<const formats::Format*> list;
    for( auto&& x : formats::all() )
      if( ( !x->damageable() ? Binary : x->name() == std::string( "graphml" ) ? XML : Own ) == P ) for( unsigned i = 0; i < x->frequency(); i++ ) list.push_back( x );
    if( list.empty() ) sim::discard();
    f = sim::pick( list );
    s = f->settings();
    d = f->generate( s, "/sim/data" + std::to_string( serial++ ) );
    o = f->model( d, s );
    if( o.mayThrow || !o.mayReturn ) sim::discard();
    shared = sim::threads::available();
    for( auto&& x : d.files )
    {
      sim::disk::put( x.path, x.content );
      sim::disk::setPlan( x.path, sim::disk::perturbedPlan() );
    }
    sim::story( "format %s: %s", f->name(), d.files[0].content.substr( 0, 1000 ).c_str() );
    sim::signature( sim::hashString( f->name() ) );
  }
  std::string input() const override
  {
    std::string r;
    for( auto&& x : d.files ) r += sim::disk::get( x.path );
    return r;
  }
  std::string run( unsigned ) const override
  {
    std::unique_ptr<formats::Loader> l;
    std::string before;
    {
      Calm q;
      l = f->make( s );
      before = l->target();
    }
    try { l->load( d.files[0].path ); }
    catch( const std::exception& e )
    {
      Calm q;
      SIM_REQUIRE( l->target() == before, std::string( "target-changed/" ) + f->name(), "a call that failed (" << e.what() << ") changed the target" );
      SIM_REQUIRE( shared || sim::disk::openHandles() == 0, std::string( "descriptor/" ) + f->name(), "file descriptor left open by a call that failed" );
      l.reset();
      std::string().swap( before );
      throw;
    }
    Calm q;
    return l->all();
  }
  void judge( const std::string& r, unsigned ) const override
  {
    SIM_REQUIRE( o.anyValue || r == o.value, std::string( "wrong/" ) + f->name(), "got " << r.substr( 0, 700 ) << " instead of " << o.value.substr( 0, 700 ) );
  }
};

Add< Reading<Own> >    a0( "", "reading", 30, AnyReport );
Add< Reading<XML> >    a1( "", "reading (XML)", 2, NoFaults );
Add< Reading<Binary> > a2( "", "reading (HDF5)", 1, NoFaults | NoThreads );

} // namespace
