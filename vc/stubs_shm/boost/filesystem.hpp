#include_next <boost/filesystem.hpp>
