#pragma once
#include <vector>
namespace takatori::tree { template <class T> struct tree_fragment_vector : std::vector<T> { using std::vector<T>::vector; }; }
