// Minimal stand-in for camp/resource.hpp (host resources only).
#pragma once
#include "camp.hpp"
#include <memory>
#include <typeindex>
#include <typeinfo>

namespace camp
{
namespace resources
{
enum class Platform
{
  undefined = 0,
  host = 1,
  cuda = 2,
  omp_target = 4,
  hip = 8,
  sycl = 16
};

struct HostEvent { bool check() const { return true; } void wait() const {} };

struct Event
{
  Event() = default;
  template< typename T > explicit Event( T && ) {}
  Event( Event const & ) = default;
  bool check() const { return true; }
  void wait() const {}
};

struct Host
{
  Host() = default;
  static Host get_default() { return Host(); }
  Platform get_platform() const { return Platform::host; }
  Event get_event() { return Event(); }
  Event get_event_erased() { return Event(); }
  void wait() {}
  friend bool operator==( Host const &, Host const & ) { return true; }
};

struct Resource
{
  template< typename T, typename = std::enable_if_t< !std::is_same< std::decay_t< T >, Resource >::value > >
  explicit Resource( T && value ):
    m_platform( value.get_platform() ),
    m_type( typeid( std::decay_t< T > ) ),
    m_value( std::make_shared< std::decay_t< T > >( value ) )
  {}

  template< typename T >
  T * try_get() { return m_type == typeid( T ) ? static_cast< T * >( m_value.get() ) : nullptr; }

  template< typename T >
  T get() { return *try_get< T >(); }

  Platform get_platform() const { return m_platform; }
  Event get_event() { return Event(); }
  Event get_event_erased() { return Event(); }
  void wait() {}
  void wait_for( Event * ) {}

private:
  Platform m_platform;
  std::type_index m_type;
  std::shared_ptr< void > m_value;
};
}
}
