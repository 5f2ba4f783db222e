#include "ext/ssl_websocket.h"
#include "user.h"
using namespace st_asio_wrapper;
typedef user::tcp<ext::websocket::ssl::server_socket> my_server_socket;
typedef user::tcp<ext::websocket::ssl::client_socket> my_client_socket;
typedef ssl::server_base<my_server_socket> my_server;
typedef ssl::multi_client_base<my_client_socket> my_client;
typedef ssl::single_client_base<my_client_socket> my_single_client;
void vp_use(service_pump& sp, boost::asio::ssl::context::method m, my_server& sv)
{
	boost::asio::io_context io; boost::asio::ssl::context ctx(m);
	my_server s(sp, m); my_client c(sp, m); my_single_client sc(sp, boost::make_shared<boost::asio::ssl::context>(m));
	my_server_socket ss(sv, ctx); my_client_socket cs(io, ctx);
}
int vp_witness_end;
