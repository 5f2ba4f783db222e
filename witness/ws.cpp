#include "ext/websocket.h"
#include "user.h"
using namespace st_asio_wrapper;
typedef user::tcp<ext::websocket::server_socket> my_server_socket;
typedef user::tcp<ext::websocket::client_socket> my_client_socket;
typedef tcp::server_base<my_server_socket> my_server;
typedef tcp::multi_client_base<my_client_socket> my_client;
typedef tcp::single_client_base<my_client_socket> my_single_client;
void vp_use(service_pump& sp, my_server& sv)
{
	boost::asio::io_context io;
	my_server s(sp); my_client c(sp); my_single_client sc(sp);
	my_server_socket ss(sv); my_client_socket cs(io);
}
int vp_witness_end;
