// R01 to R04: readers against the simulated disk.

#include "io_formats.hh"

#include <exception>
#include <stdexcept>

#include <cerrno>

#ifdef WITH_HDF5
  #include <H5Cpp.h>
#endif

namespace
{

using namespace formats;

const Format& pickFormat()
{
  std::vector<const Format*> table;
  for( auto&& f : all() )
    for( unsigned i = 0; i < f->frequency(); i++ ) table.push_back( f );
  auto* f = sim::pick( table );
  sim::story( "format %s", f->name() );
  sim::signature( sim::hashString( f->name() ) );
  return *f;
}

void store( const Document& d )
{
  for( auto&& f : d.files ) sim::disk::put( f.path, f.content );
}

// Calls f; returns whether it threw.  Anything thrown is an acceptable report.
template <class F> bool throws( F f, std::string* what = nullptr )
{
  try { f(); return false; }
  catch( const std::exception& e ) { if( what ) *what = e.what(); return true; }
  #ifdef WITH_HDF5
  catch( const H5::Exception& e ) { if( what ) *what = "H5"; return true; }
  #endif
}

std::string shorten( const std::string& s ) { return s.size() > 700 ? s.substr( 0, 700 ) + "..." : s; }

std::string printable( const std::string& s )
{
  std::string r;
  for( unsigned char c : s )
  {
    char b[8];
    if( c == '\n' ) r += "\\n";
    else if( c < 32 || c > 126 ) { std::snprintf( b, sizeof( b ), "\\x%02x", c ); r += b; }
    else r += char( c );
    if( r.size() > 1500 ) return r + "...";
  }
  return r;
}

void tell( const Document& d )
{
  for( auto&& f : d.files ) sim::story( "file %s (%zu bytes): %s", f.path.c_str(), f.content.size(), printable( f.content ).c_str() );
}

std::string cls( const char* what, const Format& f ) { return std::string( what ) + "/" + f.name(); }

void expect( const Outcome& o, bool threw, const std::string& what, const std::string& got, const Format& f, const char* kind )
{
  if( threw )
    SIM_REQUIRE( o.mayThrow, cls( kind, f ), "load failed with '" << what << "', expected " << shorten( o.value ) );
  else
  {
    SIM_REQUIRE( o.mayReturn, cls( kind, f ), "load was accepted, but the file is incomplete; got " << shorten( got ) );
    SIM_REQUIRE( o.anyValue || got == o.value, cls( kind, f ), "got " << shorten( got ) << ", expected " << shorten( o.value ) );
  }
}

// R01: any way of handing the bytes to the reader gives the same object.
void delivery()
{
  auto& f = pickFormat();
  auto s = f.settings();
  auto d = f.generate( s, "/sim/data" );
  store( d );
  tell( d );
  for( auto&& file : d.files )
    sim::disk::setPlan( file.path, sim::disk::perturbedPlan() );
  auto o = f.model( d, s );
  auto l = f.make( s );
  sim::heap::paintStack();
  std::string what;
  bool threw = throws( [&] { l->load( d.files[0].path ); }, &what );
  sim::disk::clearPlans();
  expect( o, threw, what, l->all(), f, "delivery" );
  sim::observe( l->all() );
  SIM_REQUIRE( sim::disk::openHandles() == 0, cls( "descriptor", f ), "file descriptor left open after reading" );
}

// R02: read errors are reported, leave the target alone, and do not stick.
void failure()
{
  auto& f = pickFormat();
  auto s = f.settings();
  auto d = f.generate( s, "/sim/data" );
  store( d );
  tell( d );

  std::vector<std::size_t> existing;
  auto& victim = d.files[ sim::choose( d.files.size() ) ];
  auto plan = sim::disk::perturbedPlan();
  switch( sim::choose( 8 ) )
  {
  default:
    plan.errorAt   = std::int64_t( sim::choose( victim.content.size() + 1 ) );
    plan.errorCode = sim::pick( { EIO, ENXIO, EBADF, EISDIR, EAGAIN } );
    plan.errorPass = unsigned( sim::choose( 3 ) );
    plan.errorOnce = sim::flip( 1, 3 );
    break;
  case 5:
  case 6:
    plan.openError   = sim::pick( { ENOENT, EACCES, EMFILE, EIO, EISDIR } );
    plan.openErrorAt = unsigned( sim::choose( 2 ) );
    break;
  case 7:
    break;
  }
  sim::story( "plan for %s: chunk %d eintr %u errorAt %d code %d pass %u once %d openError %d at %u", victim.path.c_str(), int( plan.chunk ), plan.eintr,
              int( plan.errorAt ), plan.errorCode, plan.errorPass, int( plan.errorOnce ), plan.openError, plan.openErrorAt );
  sim::disk::setPlan( victim.path, plan );
  sim::signature( sim::mix( sim::mix( std::uint64_t( plan.errorAt ), std::uint64_t( plan.errorCode ) ), sim::mix( std::uint64_t( plan.openError ), plan.openErrorAt ) ) );
  auto o = f.model( d, s );
  auto l = f.make( s );
  auto before = l->target();
  sim::heap::paintStack();

  std::string what;
  sim::disk::resetErrors();
  bool threw = throws( [&] { l->load( d.files[0].path ); }, &what );
  auto delivered = sim::disk::errorsDelivered();
  sim::disk::clearPlans();
  SIM_REQUIRE( sim::disk::openHandles() == 0, cls( "descriptor", f ), "file descriptor left open" );

  if( delivered )
  {
    sim::nontrivial();
    SIM_REQUIRE( threw, cls( "unreported", f ), "the reader met " << delivered << " failing call(s), but reported success with " << shorten( l->all() ) );
    SIM_REQUIRE( l->target() == before, cls( "target-changed", f ), "target of the failing load is now " << shorten( l->target() ) );
  }
  else
    expect( o, threw, what, l->all(), f, "healthy" );

  threw = throws( [&] { l->load( d.files[0].path ); }, &what );
  expect( o, threw, what, l->all(), f, "retry" );
  sim::observe( l->all() );
}

// Applies cuts and changed bytes to a document.
void cut( Document& d )
{
  auto& file = d.files[ sim::choose( d.files.size() ) ];
  auto n = file.content.size();
  auto at = n - sim::choose( n + 1 );
  if( sim::flip( 1, 3 ) )
  {
    auto e = file.content.rfind( '\n', at );
    if( e != std::string::npos ) at = e + unsigned( sim::choose( 2 ) );
  }
  if( at < n )
  {
    file.content.resize( at );
    sim::count( "torn-file" );
    sim::nontrivial();
  }
  sim::event( "cut", at, n );
  sim::signature( sim::mix( at, n ) );
}

void damage( Document& d )
{
  auto& file = d.files[ sim::choose( d.files.size() ) ];
  auto k = 1 + sim::choose( 3 );
  for( std::uint64_t i = 0; i < k && !file.content.empty(); i++ )
  {
    auto p = sim::choose( file.content.size() );
    unsigned char c = static_cast<unsigned char>( file.content[p] );
    switch( sim::choose( 6 ) )
    {
    case 0: c = static_cast<unsigned char>( c ^ ( 1u << sim::choose( 8 ) ) ); break;
    case 1: c = static_cast<unsigned char>( sim::choose( 256 ) ); break;
    case 2: c = 0; break;
    case 3: c = '\n'; break;
    case 4: c = static_cast<unsigned char>( "[]<>\"{}*#%=,:;-. 0123456789"[ sim::choose( 27 ) ] ); break;
    case 5:
      // A piece of the file is lost or stored twice.
      {
        auto len = std::min<std::size_t>( 1 + sim::choose( 40 ), file.content.size() - p );
        if( sim::flip( 1, 2 ) ) file.content.insert( p, file.content.substr( p, len ) );
        else                    file.content.erase( p, len );
        continue;
      }
    }
    file.content[p] = char( c );
    sim::event( "damage", p, c );
  }
  sim::count( "damaged-file" );
  sim::nontrivial();
}

// R03: files that were cut or damaged.
void torn()
{
  auto& f = pickFormat();
  auto s = f.settings();
  auto d = f.generate( s, "/sim/data" );
  bool damaged = f.damageable() && sim::flip( 1, 3 );
  if( damaged ) damage( d );
  else          cut( d );
  auto o = damaged ? Outcome::Any() : f.model( d, s );
  store( d );
  tell( d );
  for( auto&& file : d.files )
    sim::disk::setPlan( file.path, sim::disk::perturbedPlan() );

  auto once = [&] ( bool judge )
  {
    auto l = f.make( s );
    std::string what;
    bool threw = throws( [&] { l->load( d.files[0].path ); }, &what );
    if( judge )
    {
      sim::story( "outcome: %s", threw ? what.c_str() : shorten( l->all() ).c_str() );
      expect( o, threw, what, l->all(), f, "torn" );
      sim::observe( l->all() );
    }
  };
  sim::heap::paintStack();
  once( true );
  SIM_REQUIRE( sim::disk::openHandles() == 0, cls( "descriptor", f ), "file descriptor left open" );
  auto live = sim::heap::liveBlocks();
  once( false );
  SIM_REQUIRE( sim::heap::liveBlocks() <= live, cls( "leak", f ), "loading the file again leaves " << sim::heap::liveBlocks() - live << " more memory blocks in use" );
}

// R04: a reader object used before gives what a fresh one gives.
void history()
{
  auto& f = pickFormat();
  auto s = f.settings();
  auto l = f.make( s );
  auto n = 1 + sim::choose( 3 );
  for( std::uint64_t i = 0; i < n; i++ )
  {
    auto d = f.generate( s, "/sim/old" + std::to_string( i ) );
    bool torn = false;
    switch( sim::choose( 4 ) )
    {
    case 0:
    case 1:
      break;
    case 2:
      cut( d );
      torn = true;
      break;
    case 3:
      {
        auto& victim = d.files[ sim::choose( d.files.size() ) ];
        auto plan = sim::disk::perturbedPlan();
        plan.errorAt = std::int64_t( sim::choose( victim.content.size() + 1 ) );
        sim::disk::setPlan( victim.path, plan );
      }
      break;
    }
    store( d );
    tell( d );
    std::string what;
    bool threw = throws( [&] { l->load( d.files[0].path ); }, &what );
    sim::story( "earlier load %u: %s", unsigned( i ), threw ? what.c_str() : "accepted" );
    sim::event( "earlier", threw, torn );
    sim::count( threw ? "earlier-load-failed" : "earlier-load-accepted" );
  }
  sim::nontrivial();
  sim::disk::clearPlans();
  auto d = f.generate( s, "/sim/data" );
  store( d );
  tell( d );
  auto o = f.model( d, s );
  std::string what;
  bool threw = throws( [&] { l->load( d.files[0].path ); }, &what );
  expect( o, threw, what, l->all(), f, "history" );
  sim::observe( l->all() );
}

sim::Register r1( "R01", "delivery", delivery );
sim::Register r2( "R02", "failure", failure );
sim::Register r3( "R03", "torn", torn );
sim::Register r4( "R04", "history", history );

} // namespace
