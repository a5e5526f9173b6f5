// Stand-in for the RapidXML dependency (fetched from the network by get_dependencies.sh): the copy vendored in Boost.
#ifndef VERIF_RAPIDXML_SHIM
#define VERIF_RAPIDXML_SHIM
#include <boost/property_tree/detail/rapidxml.hpp>
namespace rapidxml = boost::property_tree::detail::rapidxml;
#endif
