// The repository downloads RapidXML at configure time; Boost ships the same library under another namespace.
#pragma once
#include <boost/property_tree/detail/rapidxml.hpp>
namespace rapidxml = boost::property_tree::detail::rapidxml;
