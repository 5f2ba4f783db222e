#include "ext/reliable_udp.h"
#include "user.h"
using namespace st_asio_wrapper;
typedef user::hooks<ext::udp::reliable_socket> my_socket;
typedef udp::single_socket_service_base<my_socket> my_single;
typedef udp::multi_socket_service_base<my_socket> my_multi;
void vp_use(service_pump& sp) {boost::asio::io_context io; my_socket s(io); my_single ss(sp); my_multi ms(sp);}
int vp_witness_end;
