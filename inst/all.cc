// Instantiates the real templates of /repo with the exact kernel the program uses and an opaque
// face-data type; nothing else. FD's serialisation is left external (an assumed contract).
#include <CGAL/Exact_predicates_exact_constructions_kernel.h>
#include <kigumi/AABB_tree/AABB_tree.h>
#include <kigumi/Boolean_region_builder.h>
#include <kigumi/Find_defects.h>
#include <kigumi/Region_io.h>
#include <kigumi/Triangle_soup_io.h>
using K = CGAL::Exact_predicates_exact_constructions_kernel;
struct FD {
  int i{};
};
namespace kigumi {
template <>
struct Write<FD> {
  void operator()(std::ostream&, const FD&) const;
};
template <>
struct Read<FD> {
  void operator()(std::istream&, FD&) const;
};
template class Boolean_region_builder<K, FD>;
template class Find_defects<K, FD>;
template class Region<K, FD>;
template class Triangle_soup<K, FD>;
template class Triangle_mesh<K, Mixed_face_data<FD>>;
template class Point_list<K>;
template class Intersection_point_inserter<K>;
template class Face_face_intersection<K>;
template class Context<Threading_options>;
template class Context<io::Write_obj_options>;
template bool read_kigumi_region<K, FD>(const std::string&, Region<K, FD>&);
template bool write_kigumi_region<K, FD>(const std::string&, const Region<K, FD>&);
template bool read_triangle_soup<K, FD>(const std::string&, Triangle_soup<K, FD>&);
template bool write_triangle_soup<K, FD>(const std::string&, const Triangle_soup<K, FD>&);
}  // namespace kigumi
