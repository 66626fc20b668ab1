// Real kigumi types at the exact kernel with a serialisable face-data type.
#pragma once
#include <CGAL/Exact_predicates_exact_constructions_kernel.h>
#include <kigumi/Mesh_entities.h>
#include <kigumi/Mesh_indices.h>
#include <kigumi/io.h>
#include "h.h"
using K = CGAL::Exact_predicates_exact_constructions_kernel;
using Point = K::Point_3;
using FT = K::FT;
struct FD {
  int i{};
  bool operator==(const FD& o) const { return i == o.i; }
};
namespace kigumi {
template <> struct Write<FD> { void operator()(std::ostream& o, const FD& t) const { kigumi_write<std::int32_t>(o, t.i); } };
template <> struct Read<FD> { void operator()(std::istream& o, FD& t) const { kigumi_read<std::int32_t>(o, t.i); } };
}
inline kigumi::Vertex_index V(std::size_t i) { return kigumi::Vertex_index{i}; }
inline kigumi::Face_index Fi(std::size_t i) { return kigumi::Face_index{i}; }
inline kigumi::Face face(std::size_t a, std::size_t b, std::size_t c) { return {V(a), V(b), V(c)}; }
struct Quiet { std::streambuf* o; Quiet() : o(std::cout.rdbuf(nullptr)) {} ~Quiet() { std::cout.rdbuf(o); std::cout.clear(); } };
