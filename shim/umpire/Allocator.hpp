// Minimal stand-in for umpire::Allocator.
#pragma once
#include <string>
namespace umpire
{
struct Allocator
{
  explicit Allocator( int const id = 0 ): m_id( id ) {}
  int getId() const { return m_id; }
  std::string getName() const { return "alloc" + std::to_string( m_id ); }
  int m_id;
};
}
