#ifndef VF_BTREE_MAP_H_
#define VF_BTREE_MAP_H_
#include <map>
#include <set>
namespace absl { template <class K, class V> using btree_map = std::map<K, V>; template <class K> using btree_set = std::set<K>; }
#endif
