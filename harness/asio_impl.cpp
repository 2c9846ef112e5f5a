#include <boost/asio/impl/src.hpp>
