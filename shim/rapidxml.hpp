// RapidXML is not vendored in /repo (get_dependencies.sh downloads it). Boost ships the very same parser,
// under another namespace; the scene parsers see it under its usual name.
#ifndef VERIF_RAPIDXML_SHIM
#define VERIF_RAPIDXML_SHIM
#include <boost/property_tree/detail/rapidxml.hpp>
namespace rapidxml = boost::property_tree::detail::rapidxml;
#endif
